#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, pathlib
U='lib/uri/uri.cpp'; UH='include/uri/uri.hpp'; PH='include/uri/parts.hpp'; PC='lib/uri/parts.cpp'
PD='include/uri/pctdecode.hpp'; PE='include/uri/pctencode.hpp'; PEC='lib/uri/pctencode.cpp'
PU='include/uri/punycode.hpp'; PUC='lib/uri/punycode.cpp'; RH='include/uri/rule.hpp'; RC='lib/uri/rule.cpp'
IC='include/uri/icubaby.hpp'; SP='tools/uri-split/uri-split.cpp'
P=[]
def p(id,title,statement,over,text,files,mech,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=None,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
def why(s): P[-1]['why_tests_cant']=s

p('P01','A string is accepted exactly when RFC 3986 says it is a URI (or reference)',
 'Parsing an absolute URI succeeds exactly for the strings derivable from the "URI" rule of RFC 3986 Appendix A, and parsing a URI reference succeeds exactly for those derivable from "URI-reference". This holds for every byte string of any length, including hosts that merely look like IPv4 addresses, every IPv6 and IPvFuture form, empty components, embedded NULs and bytes above 0x7F. Rejection is reported as an empty result, never by an exception.',
 ['inputs'],'every byte string given to either parser',[U,UH,RH],
 [('grammar rules for URI / URI-reference',U+': URI, URI_reference, hier_part, relative_part'),('host and IP literal rules',U+': host, ip_literal, ipv6address, ipvfuture, ipv4address, reg_name'),('acceptance only if the whole input was consumed',RC+': rule::done')])
why('The language is infinite and the matcher is an ordered-choice, non-backtracking transcription of a context-free grammar: a handful of literal strings cannot show that no alternative commits too early, accepts too much or rejects a legal combination.')

p('P02','Parsed components are exactly the RFC 3986 components, as views of the input',
 'For every accepted string the scheme, userinfo, host, port, path segments, query and fragment are exactly those given by the generic syntax (RFC 3986 section 3 and Appendix B), with an absent component distinguished from an empty one and the path flagged absolute exactly when it starts with a slash. No component of an abandoned alternative ever leaks into the result. Every returned view, empty or not, lies inside the caller\'s buffer at the offset where that component occurs (only the lone empty segment of the path "/" has no location).',
 ['inputs'],'every string accepted by either parser',[U,UH,RH,RC],
 [('acceptors record components only along the matched derivation',RC+': rule::done; '+RH+': rule::join, rule::optional'),('path segment recording',U+': append_dir, append_segment, record_initial_segment'),('authority sub-components',U+': userinfo_at, host_rule, colon_port')])
why('Components depend on the interplay of optional parts and partially matched alternatives; tests pin some literals whereas mis-slicing shows only for particular combinations of present, absent and empty parts.')

p('P03','Composing a parsed URI reproduces the original string byte for byte',
 'For every string accepted by the absolute or the reference parser, composing the parsed components yields exactly the original string. The string-returning composer, the stream composer and stream insertion all produce the same characters, and inserting an authority or a path on its own produces exactly that part of the text.',
 ['inputs'],'every string accepted by either parser, all output routes',[U,UH],
 [('composition',U+': compose, operator<< for parts, authority and path'),('path to string conversion',U+': parts::path::operator std::string')])
why('It is a round-trip over an infinite language in which each optional part has a present-but-empty form; tests sample few of the combinations.')

p('P04','The validity predicate agrees with the grammar and guarantees composability',
 'A set of components is reported valid exactly when a scheme is present, every component present is derivable from its own RFC 3986 rule, and a path without an authority does not begin with two slashes; the predicates for a path and for an authority alone agree with the same rules. Composing components reported valid always gives a string that parses, and parsing it gives the same component texts back.',
 ['inputs'],'every combination of component values, whether or not they came from parsing',[U,UH],
 [('validity checks',U+': parts::valid, parts::authority::valid, parts::path::valid'),('composition of components',U+': compose')])
why('Components can be put together freely by the caller, so the space is a product of arbitrary strings; agreement between a predicate, the composer and the parser is a relation over all of it.')

p('P05','Reference resolution follows RFC 3986 section 5.2 for every base and reference',
 'Resolving any URI reference against any base URI gives exactly the target components of the RFC 3986 section 5.2.2-5.2.4 algorithm: scheme, authority, path merging and dot removal, query inheritance, and a fragment taken only from the reference. In non-strict mode a reference whose scheme is identical (character for character) to the base scheme is treated as having none. Resolution of strings fails exactly when the base is not a URI or the reference is not a URI reference, and otherwise agrees with resolution of the parsed components.',
 ['inputs'],'every pair of base and reference, strict and non-strict, string and component forms (base paths without a leading slash and without authority are resolved segment by segment)',[U,UH],
 [('transform references',U+': join'),('merge paths',U+': merge'),('dot segment removal',U+': parts::path::remove_dot_segments')])
why('The result is a function of two inputs with six optional parts each plus path structure; the RFC examples used as tests all share one base URI.')

p('P06','Dot-segment removal matches RFC 3986 section 5.2.4 and is idempotent',
 'For a path beginning with a slash the result spells exactly the string computed by the RFC 3986 remove_dot_segments algorithm, including empty segments and a trailing slash after a final "." or "..". For a path without a leading slash "." segments vanish, ".." cancels the nearest preceding remaining segment or vanishes if there is none, and a final dot segment leaves a trailing empty segment. The result contains no dot segments, the absolute flag is unchanged, and a second application changes nothing.',
 ['inputs'],'every list of path segments',[U,UH],[('in-place segment compaction',U+': parts::path::remove_dot_segments')])
why('In-place compaction has aliasing and boundary behaviour that depends on arbitrary interleavings of ordinary, empty and dot segments.')

p('P07','Percent-encoding escapes exactly the chosen set and loses no byte',
 'For every byte string and every encode set, exactly the bytes in the WHATWG set selected (with "%", space, controls and all bytes above 0x7E always included for the named sets) are replaced by "%" and two uppercase hexadecimal digits and every other byte is copied unchanged and in order. The "needs encoding" query is true exactly when encoding would change the string. For every set that escapes "%", decoding the encoded text gives the original bytes back.',
 ['inputs'],'every byte string, every encode set, every iterator form of the interface',[PE,PEC],
 [('membership table',PEC+': needs_pctencode'),('encoder',PE+': pctencode')])
why('There are 256 byte values times 8 sets packed in a compressed bit table with index adjustments, and arbitrary strings of them; the tests list some bytes and some sets.')

p('P08','Percent-decoding decodes exactly the well-formed escapes on every interface',
 'Decoding replaces each "%" followed by two hexadecimal digits of either case (scanning left to right, without rescanning produced characters) by the byte they denote and leaves all other characters, including truncated or malformed escapes, unchanged. The string function, the iterator pair, the container wrapper and the range view (copied, moved from or traversed repeatedly) all produce the same characters and never read outside the range they were given. The "needs decoding" query is true exactly when the text contains a "%".',
 ['inputs'],'every byte string, every decoding interface',[PD],
 [('escape recognition',PD+': details::deref, details::increment, details::hex2dec'),('view and iterators',PD+': pctdecode_view, pctdecode_iterator, pctdecoder')])
why('Escapes overlapping each other or the end of the buffer occur in unboundedly many arrangements, and there are four interfaces which must agree on all of them.')

p('P09','The Punycode codec implements RFC 3492',
 'Encoding any sequence of code points produces exactly the RFC 3492 encoding (lower-case digits), or the unchanged text if all are ASCII and plain output is allowed, and reports whether anything was non-ASCII. Decoding accepts digits of either case, returns exactly the sequence RFC 3492 assigns to the text and undoes the encoding; text with an invalid or missing digit, or a non-ASCII literal character, is reported as bad input and a value that exceeds the representable range as overflow.',
 ['inputs'],'every sequence of Unicode scalar values for encoding; every byte string for decoding (leniency for a single leading delimiter is not constrained)',[PU,PUC],
 [('encoder, variable-length integers and bias adaptation',PU+': encode, encode_vli, adapt'),('decoder',PU+': decode, copy_plain_ascii_part, decode_loop, decode_vli'),('error reporting',PUC+': make_error_code, error_category::message')])
why('Bootstring carries adaptive numeric state over the whole string: errors appear only for particular distances, lengths and code-point orders.')

p('P10','Encoding components gives the right text for each, kept alive in the store',
 'Encoding a set of components returns the same components with userinfo, path segments, query and fragment percent-encoded with the encode set of that component, scheme and port with the minimal set, and each host label with non-ASCII characters replaced by "xn--" and its Punycode form while other labels stay as they are. Presence or absence, the absolute flag and the number and order of segments are preserved. Every returned view refers either to the caller\'s original text or to the store, whose earlier content does not matter, and stays readable after the call.',
 ['inputs'],'every combination of present, absent and empty components with any bytes, any number of segments, any contiguous store container',[PH,PC,PE,PU],
 [('two-pass sizing and writing',PH+': encode, details::parts_strings'),('host labels',PH+': details::puny_encoded'),('size prediction',PC+': details::pct_encoded_size')],
 [('store','caller-owned buffer which rewritten components refer to',PH+': encode'),('needs_encoding','per-component flag deciding whether it is rewritten in the second pass',PH+': encode')])
why('Correctness depends on the two passes agreeing for every combination of components and on no reallocation in between; a test shows one combination and dangling views may still read correctly by luck.')

p('P11','Decoding components yields the right text for each or the right error',
 'Decoding a set of components percent-decodes every scheme, userinfo, path segment, port, query and fragment and turns each host label that starts with "xn--" back into UTF-8, leaving other labels untouched. If a label is not decodable the whole call reports the Punycode error of the first such label and returns no components. Presence or absence, the absolute flag and the number and order of segments are preserved, and every returned view refers to the original text or to the store.',
 ['inputs'],'every combination of components, any number of segments, any contiguous store container (labels that decode to nothing or to non-scalar values are not constrained)',[PH,PC,PD,PU],
 [('two-pass sizing and writing',PH+': decode, details::parts_strings'),('host labels',PH+': details::puny_decoded'),('size prediction',PC+': details::pct_decoded_size')],
 [('store','caller-owned buffer which rewritten components refer to',PH+': decode')])
why('It is a per-component relation over the product of all component values with an error path that can trigger at any label of any host.')

p('P12','Decoding undoes encoding for every set of components',
 'For any components whose host is well-formed UTF-8 with no label beginning with "xn--" and whose scheme and port contain no "%", encoding and then decoding gives back components equal to the originals, field by field. If the original components are valid so are the encoded ones, and the encoded text of arbitrary userinfo, path, query and fragment bytes never contains a raw control, space or non-ASCII byte.',
 ['inputs'],'every set of components in that domain',[PH,PC,PE,PD,PU],
 [('encode / decode of components',PH+': encode, decode')])
why('A round trip over the product of arbitrary byte strings and internationalised host names through four codecs.')

p('P13','Parser combinators follow their documented meaning and run acceptors in order',
 'For every grammar built from single characters, ranges, concatenation, ordered alternatives, optional parts and bounded repetition, matching consumes exactly the prefix given by left-to-right, greedy, first-alternative-wins semantics, and parsing terminates. Acceptors run only when the whole input has been matched, exactly those on the successful derivation, in textual order, each with the substring its rule matched; on failure none runs. A rule object can be reused and continued several times without one continuation affecting another.',
 ['inputs','histories'],'every grammar expression, every input string, every reuse of intermediate rule objects',[RH,RC],
 [('combinators',RH+': concat, optional, star, alternative, single_char, char_range'),('acceptor bookkeeping',RH+': join, join_rule; '+RC+': done, matched')],
 [('acceptors_','acceptors gathered along the derivation so far',RH+': rule')])
why('The combinators are higher-order: their contract quantifies over all grammars and inputs while tests exercise a few fixed rules.')

p('P14','Well-formed text is transcoded losslessly between UTF-8, UTF-16 and UTF-32',
 'For every sequence of Unicode scalar values and every pair of encodings, transcoding its source encoding gives exactly its destination encoding and reports well-formed input, whether units are passed one at a time, written through the output iterator or read through the range view (in one or several passes). After each unit a partial code point is reported exactly in the middle of a multi-unit sequence. Code-point counting and indexing agree with the sequence.',
 ['inputs'],'every sequence of scalar values, all nine encoding pairs, all three interfaces',[IC],
 [('transcoders',IC+': transcoder<...>, details::triangulator'),('output iterator and range view',IC+': iterator, ranges::transcode_view'),('length and index',IC+': length, index, is_code_point_start')])
why('More than a million scalar values times nine pairs times adjacency of sequences of different lengths; the repository has no tests for this header.')

p('P15','Ill-formed text never produces ill-formed output and is always reported',
 'For any sequence of code units the output is well formed, input is reported as well formed exactly when it is, text before the first error is transcoded exactly, each error produces U+FFFD, and after an error transcoding resumes so that at most the code point adjoining the error is lost. In UTF-16 every unpaired surrogate and in UTF-32 every invalid unit becomes exactly one U+FFFD with all other text preserved. Input that ends in the middle of a code point yields a final U+FFFD, and all interfaces agree and write within their buffers.',
 ['inputs'],'every sequence of code units in each encoding, all nine pairs',[IC],
 [('error recovery',IC+': transcoder<char8,char32_t>, transcoder<char16_t,char32_t>, transcoder<char32_t,...>'),('fixed-size output buffers',IC+': triangulator_intermediate_code_units, max_output_bytes, transcode_view::iterator::state::fill')])
why('Malformed sequences occur in unboundedly many combinations, and the fixed-size intermediate buffers are stressed only by specific adjacent pairs at specific positions.')

p('P16','Byte streams are decoded according to their byte order mark',
 'A byte stream that starts with a UTF-8, UTF-16 (either byte order) or UTF-32 (either byte order) byte order mark is decoded in that encoding without the mark, and one without a mark as UTF-8 including its very first bytes; the selected encoding is reported accordingly. This holds on every interface and for streams of any length, including ones that end within or directly after a mark (FF FE 00 00 is taken as the UTF-32 mark). A stream that ends in the middle of a code unit or code point gives a final U+FFFD and is reported as not well formed.',
 ['inputs'],'every byte stream, each destination encoding, all interfaces',[IC],
 [('byte order mark state machine',IC+': transcoder<std::byte, ToEncoding>'),('end of stream',IC+': end_cp, end_bom'),('range view buffering',IC+': transcode_view::iterator::state::fill')],
 [('state_','position within the mark or the current code unit',IC+': transcoder<std::byte, ToEncoding>::states'),('buffer_','bytes received but not yet interpreted',IC+': transcoder<std::byte, ToEncoding>')])
why('The state machine has about twenty states which are only all reached by near-miss marks and streams cut at every position; the repository has no tests for it.')

p('P17','uri-split prints the components of each line and fails on the first bad one',
 'For any input lines, given on standard input or in any number of files, the command-line tool echoes each line and prints its seven components, quoted or "None", in the documented layout, up to the first line that is not a URI (which is echoed, without components) or the first file that cannot be opened. It exits with success exactly when there was no such line or file, and its output depends on nothing else.',
 ['inputs','histories'],'every sequence of lines over standard input or any list of files',[SP,U],
 [('line loop and output format',SP+': read_stream'),('argument handling and exit status',SP+': main')])
why('No test runs the tool here; its behaviour is a function of arbitrary streams (missing final newline, empty lines, several files, failures part way).')

p('P18','No input crashes, corrupts memory, leaks exceptions or hangs',
 'Every public operation, given any bytes of any length in buffers of exactly that size (not NUL-terminated), completes without reading or writing outside its arguments, undefined behaviour, a failed assertion or an uncaught exception. Inputs of many thousands of characters, segments or labels are handled too.',
 ['inputs'],'every argument to every public operation, up to large inputs',[U,PH,PC,PD,PE,PEC,PU,RH,RC,IC],
 [('parsers',U+': split, split_reference, join'),('codecs',PD+', '+PE+', '+PU+', '+IC),('component transformation',PH+': encode, decode')])
why('Memory safety and termination are universally quantified over inputs; a test observes one input without instrumentation.')

p('P19','Equality of components is an equivalence that agrees with the composed text',
 'Comparing components, authorities and paths is reflexive, symmetric and transitive, inequality is its exact negation, and equality holds exactly when every field has the same presence and text, where the absolute flag of the path is disregarded if both have an authority. Equality does not depend on where the text is stored. Equal components compose to the same text, and different components that come from parsing compose to different texts.',
 ['inputs'],'every pair and triple of component sets, from parsing or hand-made',[U,UH],
 [('comparison operators',U+': parts::operator==, parts::path::operator==, parts::authority::operator==; '+UH+': operator!=')])
why('An equivalence is a relation over pairs and triples of arbitrary values; tests compare a few objects.')

p('P20','Conversion of a parsed path to a filesystem path keeps its segments and root',
 'Converting the path of any parsed URI or reference to a filesystem path gives a path whose generic form is the URI path with each run of slashes collapsed to one: absolute exactly if the URI path is, with the same non-empty segments in the same order, and a trailing slash exactly where the URI path has one.',
 ['inputs'],'every path obtained by parsing',[U,UH],
 [('conversion',U+': parts::path::operator std::filesystem::path')])
why('The result depends on how empty, dot and trailing segments interact with filesystem path appending for every segment list.')

p('P21','Every operation is a pure function of its arguments in any history or thread',
 'Calling any operations in any order, repeatedly, interleaved with failing calls, or from several threads at once on shared read-only arguments, gives for each call exactly the result it gives on its own, leaves its inputs unmodified, and involves no data race. Results already returned are not affected by later calls.',
 ['histories','schedules'],'every sequence of operations, and concurrent execution of such sequences on several threads',[U,PH,PC,PD,PE,PEC,PU,PUC,RH,RC,IC],
 [('parsers without global state',U+': split, split_reference, join, compose'),('static tables and error category',PEC+': needs_pctencode; '+PUC+': make_error_code; '+IC+': utf8d_')])
why('Hidden state shows only for particular histories or interleavings; tests make isolated calls on one thread.')

p('P22','The range search helpers agree with their standard specification',
 'Finding the last occurrence of a value in any forward or bidirectional range returns the sub-range from its last occurrence to the end, or an empty range at the end if there is none. The prefix test on any two ranges is true exactly when the second is a prefix of the first. Projections and predicates are honoured, for iterator pairs and ranges alike.',
 ['inputs'],'every range, value, projection and predicate over several iterator categories',['include/uri/find_last.hpp','include/uri/starts_with.hpp'],
 [('last occurrence',"include/uri/find_last.hpp: find_last_forward, find_last_bidi"),('prefix test','include/uri/starts_with.hpp: starts_with_fn')])
why('They are generic algorithms over all ranges and iterator categories; boundary positions and repeated elements are easy to miss with examples.')

p('P23','The cost of every operation grows about linearly, without deep recursion',
 'The time an operation takes, and the memory it allocates and moves, grow at most about in proportion to the size of its arguments, whatever their content: no text, component, run of segments or labels, however constructed, makes parsing, composing, resolving, dot-segment removal, validation, percent coding or transcoding quadratic or worse. Punycode conversion of a single label may take time proportional to the square of its length, but no more. The depth of the stack does not grow with the size of the arguments.',
 ['inputs'],'every argument to every public operation, at every size',[U,PH,PC,PD,PE,PEC,PU,RH,RC,IC],
 [('parsers without backtracking over long input',RH+': concat, alternative, star; '+U+': grammar rules'),('single-pass transformation of paths',U+': parts::path::remove_dot_segments, merge'),('component codecs',PH+': encode, decode'),('Punycode codec',PU+': encode, decode')])
why('Growth is a relation between runs of different sizes over all families of inputs; tests use short strings, for which a quadratic or recursive implementation looks the same.')

p('P24','Results are the same in every supported build configuration',
 'Each public header can be included on its own and the library compiles, and every operation gives the same result for the same arguments, whichever compiler (gcc, clang) and language version (C++20, C++23) is used, with or without optimisation and assertions, and whether plain char is signed or unsigned.',
 ['inputs','configurations'],'every argument to every public operation, in each of seven build configurations',[U,PH,PC,PD,PE,PEC,PU,PUC,RH,RC,IC,'include/uri/find_last.hpp','include/uri/starts_with.hpp'],
 [('conditional implementations','include/uri/find_last.hpp, include/uri/starts_with.hpp: __cpp_lib_ranges_*; '+IC+': ICUBABY_HAVE_*'),('assertions',IC+', '+PH+', '+PD+': assert'),('classification of plain char',PE+', '+PD+', '+U+', '+PU)])
why('The tests run in one configuration, and a dependence on assertions, evaluation order, uninitialised values or char signedness shows only for some inputs in another one.')

p('P25','An operation that runs out of memory says so and does no harm',
 'If any memory allocation fails during an operation that is not declared noexcept (parsing, resolution, composing, dot-segment removal, percent coding, Punycode, component encoding and decoding, rule matching), the caller gets std::bad_alloc or else the correct result; never a wrong, truncated or partial result, a crash or termination. Nothing is leaked, the arguments are unchanged, and the same call succeeds with the usual result once memory is available.',
 ['inputs','fault_sequences'],'every argument and every point at which an allocation fails',[U,UH,PH,PC,PD,PE,PU,RH,RC],
 [('results returned by value and filled by acceptors',U+': split, split_reference, join; '+RH+': rule'),('composition through a string stream',U+': compose'),('stores sized before use',PH+': encode, decode')])
why('Tests never make an allocation fail, and each operation has many points at which one can, depending on the input.')

p('P26','Results do not depend on the process locale',
 'Every operation (parsing, resolution, composing, percent coding, Punycode, component encoding and decoding, comparison, transcoding) gives the same result whatever the C locale and the global C++ locale are, including single-byte locales with letters above 0x7F, locales with other case rules (such as the Turkish i) and locales which group digits.',
 ['inputs','configurations'],'every argument to every public operation, in every locale',[U,PH,PC,PD,PE,PEC,PU,RH,RC,IC],
 [('classification of characters',RH+': alpha, digit, hexdig, char_range, single_char; '+U+': unreserved, code_point_range; '+PEC+': needs_pctencode'),('composition through a string stream',U+': compose, operator<<')])
why('RFC 3986 is about ASCII, but the C and C++ libraries classify, fold and format by locale. Tests run in one locale, and only some characters and values show a difference.')

p('P27','Decoding views and their iterators are proper forward views and iterators',
 'The percent-decoding and the transcoding view can be applied to every forward range that can be iterated when const: contiguous, random access, bidirectional and forward-only ones, with an end of the same or of another type, lvalues and rvalues, references and values as elements; the percent-decoding view to its own result, too. In any history of creating, copying, moving, assigning, swapping, advancing, dereferencing and comparing, the iterators of these views, and those that decode percent escapes directly, behave as the standard requires of forward iterators: each denotes a position of its own which no operation on another iterator changes, two are equal exactly when they are at the same position and equal to the end exactly when nothing is left, and the value at a position is the same on each pass.',
 ['histories','inputs'],'every text, every kind of forward range and every history of operations on several iterators and copies of the view',[PD,IC],
 [('percent-decoding view',PD+': pctdecode_view, pctdecode_iterator, increment, deref'),('transcoding view',IC+': transcode_view, transcode_view::iterator, state')])
why('Tests make one or two passes with one iterator over contiguous ranges; stale or shared state of iterators shows only for some histories and some kinds of range.')

out=pathlib.Path(__file__).resolve().parent.parent/'properties.jsonl'
out.write_text(''.join(json.dumps(d)+'\n' for d in P))
print(len(P))

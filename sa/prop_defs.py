from props import Spec, probe, witness, rule
import rules

Spec('C01', title='Fixed-width integers serialize as documented and round-trip',
     statement='For every unsigned integer value, serializing it little-endian or big-endian (16, 32 and 64 bit) writes exactly the '
               'bytes of that value in the stated order and exactly as many bytes as the width, returning the position just after them, '
               'and deserializing those bytes in the same order gives the value back. No byte outside of the given range is read or written.',
     quantifier='all 2^16 / 2^32 / 2^64 values, both byte orders, any contents of the surrounding memory',
     why='The unit tests sample a handful of values; they cannot cover 2^64 inputs, and do not look at bytes next to the destination.',
     files=['src/utki/utility.hpp'],
     mechanism=[('serialize16le .. serialize64be, deserialize16le .. deserialize64be', 'src/utki/utility.hpp')],
     jobs=[probe('C01_serialization.cpp', min_claims=100)], min_obligations=300)

Spec('C02', title='The deserializer never reads outside of its data and consumes exactly',
     statement='Each read of the binary deserializer either returns the value encoded at the current position and advances by exactly the size '
               'of that item, or, when fewer bytes remain than the item needs, throws std::invalid_argument and leaves the position unchanged. '
               'No byte outside of the span it was given is ever read, whatever the span size, contents or requested length.',
     over=['inputs', 'histories'],
     quantifier='every span size and contents, every requested length, every position reached by earlier reads',
     why='Tests read a few well-formed buffers; truncated input at every position and lengths near the integer limits are not sampled.',
     files=['src/utki/deserializer.hpp', 'src/utki/deserializer.cpp', 'src/utki/span.hpp'],
     mechanism=[('throw_if_out_of_bounds before every access', 'src/utki/deserializer.hpp'), ('deserializer::read_*', 'src/utki/deserializer.cpp')],
     jobs=[probe('C02_deserializer.cpp', ['deserializer'], min_claims=100)], min_obligations=300)

Spec('C03', title='UTF-8 encoding of every code point is the standard byte sequence',
     statement='For every 32-bit value up to 0x7fffffff the encoder yields the standard UTF-8 (ISO 10646) byte sequence of minimal length '
               'followed by a terminating zero; for larger values it yields an empty string. Nothing outside of the returned array is written.',
     quantifier='all 2^32 input values',
     why='Tests encode a few strings; the length boundaries and the bit packing for 2^31 code points are not enumerated.',
     files=['src/utki/unicode.cpp', 'src/utki/unicode.hpp'],
     mechanism=[('to_utf8(char32_t)', 'src/utki/unicode.cpp')],
     jobs=[probe('C03_utf8_encode.cpp', ['unicode'], min_claims=25)], min_obligations=60)

Spec('C04', title='UTF-8 decoding is in bounds for any bytes and inverts the encoding',
     statement='The UTF-8 iterator decodes each well-formed sequence to its code point, moves exactly past it, and reports the end exactly '
               'at the end of the string (or at a zero character). For arbitrary bytes it never reads outside of the given span, or past the '
               'terminating zero of a zero-terminated string, and performs no undefined operation.',
     over=['inputs', 'histories'],
     quantifier='all code points; all byte strings of any length, malformed and truncated ones included; any number of steps',
     why='Tests decode a few valid strings; malformed and truncated sequences, and all the lead bytes, are not covered.',
     files=['src/utki/unicode.cpp', 'src/utki/unicode.hpp'],
     mechanism=[('utf8_iterator::operator++', 'src/utki/unicode.cpp'), ('utf8_iterator::is_end', 'src/utki/unicode.hpp')],
     jobs=[probe('C04_utf8_decode.cpp', ['unicode'], min_claims=55)], min_obligations=200)

MODEL = ['-I' + __import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))), 'probes', 'model')]
MODEL_MAP = [MODEL[0] + '_map']
STREAM = [MODEL[0] + '_stream']
STREAMS = ['-sa-heap-local', '-sa-streams']

Spec('C05', title='Base64 decoding inverts the standard encoding and is safe on any input',
     statement='Decoding a string of characters of the standard base64 alphabet, with or without its trailing "=" padding, yields exactly the bytes '
               'which RFC 4648 encodes that way: every character contributes its six bits at its place, and the number of bytes is right. '
               'A string whose last group holds a single character is rejected with std::invalid_argument. For arbitrary bytes of any length '
               'nothing outside of the string or of the decoding table is read and no other exception is thrown.',
     quantifier='all characters at all positions (value claims: strings up to 33 characters), all byte strings of any length (safety)',
     why='Tests decode a dozen fixed strings; bytes above 0x7f, truncated groups and most table entries are never exercised.',
     files=['src/utki/base64.cpp'], mechanism=[('base64_decode()', 'src/utki/base64.cpp'), ('decode_table', 'src/utki/base64.cpp')],
     jobs=[probe('C05_base64.cpp', ['base64'], flags=MODEL + ['-DSA_VECTOR_CAP=26'], min_claims=50),
           probe('C05_base64_any.cpp', ['base64'])], min_obligations=1000)

Spec('C06', title='A set of flags is an independent boolean per flag with exact set algebra',
     statement='For any contents of a flags set: setting, clearing or assigning one flag changes that flag only; &, |, ^, ~, invert and their assigning '
               'forms act on each flag as the logical operation; constructors and make_flags set exactly the listed flags; get and operator[] return what was '
               'last set; is_clear/is_set hold exactly when no/every flag is set; == and != compare all the flags. This holds for enumerations of one '
               'flag, of exactly one machine word and of more than one word alike, and no operation throws or touches memory outside of the set.',
     quantifier='all contents of the sets involved; enumerations of 1, 5, 8, 64 and 71 flags, their boundary flags',
     why='Tests use one small enumeration and a few combinations; word boundaries and unused high bits are not looked at.',
     files=['src/utki/flags.hpp'], mechanism=[('flags<>', 'src/utki/flags.hpp')],
     jobs=[probe('C06_flags.cpp', min_claims=3000)], min_obligations=20000)

Spec('C07', title='Version numbers are totally ordered and pack losslessly',
     statement='version_duplet compares lexicographically (major first, then minor): exactly one of a < b, b < a, equal holds, a >= b is the negation of a < b, '
               'and to_uint32_t() is major * 65536 + minor, so that it is one-to-one and preserves the order. '
               'It prints as the two decimal numbers with a dot in between.',
     quantifier='all pairs of 16-bit major and minor numbers',
     why='Tests sample a few pairs out of 2^64.',
     files=['src/utki/version.hpp'], mechanism=[('version_duplet', 'src/utki/version.hpp')],
     jobs=[probe('C07_version.cpp', min_claims=20), probe('C07_print.cpp', min_claims=3, flags=STREAM, engine=STREAMS)], min_obligations=60)

Spec('C08', title='spin_lock gives mutual exclusion and orders the critical sections',
     statement='spin_lock::lock() returns only after this call itself atomically changed the lock from free to taken, whatever other threads do meanwhile, so '
               'that no two threads hold it at once; unlock() always makes it free again. Taking it has acquire and freeing it has release ordering, so '
               'everything done in one critical section is visible in the next. A new lock is free, and locks cannot be copied.',
     over=['schedules', 'histories'],
     quantifier='all interleavings of any number of threads on any memory model allowed by C++',
     why='A test runs a few threads on strongly ordered hardware: a missing ordering or a lost wake-up window almost never shows.',
     files=['src/utki/spin_lock.hpp'], mechanism=[('spin_lock::lock / unlock', 'src/utki/spin_lock.hpp')],
     technique='typestate and memory-ordering analysis over the LLVM IR of lock() and unlock() (dominance, must-facts about the value found by each atomic operation), compile-fail witnesses',
     explanation='The IR of the constructor, lock() and unlock() is analysed: which constant means free, that each return of lock() is dominated by a '
                 'read-modify-write known to have found the lock free and to have replaced it, with acquire ordering, that nothing else writes the lock word, '
                 'and that every path of unlock() stores the free state with release ordering.',
     rule='an obligation is an access site of the lock word or one of the rules applied to a return / write; compile-fail witnesses count one each',
     assumptions=['C++11 memory model: an acquire read-modify-write that reads from a release write synchronises with it', 'unlock() is called by the thread that holds the lock'],
     jobs=[rule(rules.lock_job, src='C08_spin_lock.cpp'), witness('C08_witness.cpp')], min_obligations=20)

Spec('C09', title='A singleton exists at most once and is found exactly while it exists',
     statement='For a type derived from singleton or intrusive_singleton, in every history of creations and destructions: creating an object succeeds exactly when '
               'none exists and otherwise throws std::logic_error and changes nothing; is_created() is true exactly while one exists; inst() is that very object, also '
               'when the singleton base is not the first base class; destruction, or a constructor that fails half way, makes room for a new one and never destroys '
               'anything twice; singletons of different types are independent; a singleton cannot be copied, moved or replaced.',
     over=['histories'],
     quantifier='all histories of creation, failed creation and destruction; any previous state',
     why='Tests create one object of one type; failed constructors, a refused second object and re-creation are not exercised.',
     files=['src/utki/singleton.hpp'], mechanism=[('intrusive_singleton<>, singleton<>', 'src/utki/singleton.hpp')],
     jobs=[probe('C09_singleton.cpp', min_claims=40), witness('C09_witness.cpp')], min_obligations=200)

Spec('C10', title='scope_exit runs its action exactly once unless released and never throws',
     statement='The action given to scope_exit runs exactly once, when the object is destroyed, however the scope is left (normally or by an exception), before any handler '
               'runs and in reverse order of creation; after release() it does not run at all and release() returns the very action (an empty one the second time). '
               'Whatever the action throws, nothing leaves the destructor, and the exception in flight survives. The action object is destroyed exactly once. '
               'scope_exit cannot be copied or moved.',
     over=['histories', 'inputs'],
     quantifier='every way of leaving the scope, every action including ones that throw, every sequence of release calls',
     why='Tests leave a scope normally once; exceptions in flight, throwing actions and repeated release are not covered.',
     files=['src/utki/utility.hpp'], mechanism=[('scope_exit', 'src/utki/utility.hpp')],
     jobs=[probe('C10_scope_exit.cpp', min_claims=30), witness('C10_witness.cpp')], min_obligations=100)

Spec('C11', title='shared_ref and unique_ref always refer to an object and own it exactly',
     statement='A shared_ref or unique_ref made from a non-null smart pointer or by make_shared/make_unique refers to exactly that object until it is moved from or assigned; '
               'copies, conversions to base or const, and the conversions to shared_ptr, weak_ptr and reference denote the same object and share ownership (weak ones do not own); '
               'the object is destroyed exactly once, when the last owner goes. dynamic_reference_cast returns the same object or throws std::bad_cast, leaving its source intact; '
               'make_shared_from and make_weak_from share ownership with the existing owners. Comparison compares the objects. Arguments are forwarded unchanged. '
               'No default construction, no implicit construction from pointers, and no conversion the pointers do not have, compiles.',
     over=['inputs', 'histories'],
     quantifier='all objects, all sequences of copy / move / assign / convert, any dynamic type in the cast',
     why='Tests follow a few sequences; ownership counts, failed casts and the forbidden conversions (which no running test can contain) are not covered.',
     files=['src/utki/shared_ref.hpp', 'src/utki/unique_ref.hpp', 'src/utki/shared.hpp', 'src/utki/destructable.hpp'],
     mechanism=[('shared_ref<>', 'src/utki/shared_ref.hpp'), ('unique_ref<>', 'src/utki/unique_ref.hpp'), ('make_shared_from, make_weak_from', 'src/utki/shared.hpp')],
     assumptions=['reference counts of libstdc++ are analysed for one thread; dynamic_cast is any function of object and target type'],
     jobs=[probe('C11_refs.cpp', min_claims=100, engine=['-sa-heap-local']), witness('C11_witness.cpp')], min_obligations=400)

Spec('C12', title='A span is an exact view: it never reaches outside of what it was made from',
     statement='A span made from pointer and size, array, vector, string, string view, initializer list or zero-terminated string has exactly that data and size '
               '(up to the first zero, which is not passed); begin, end, reverse iteration, data, size, size_bytes, empty, front, back and operator[] agree with each other and '
               'touch no other memory; at() throws std::out_of_range exactly for an index past the end. A subspan lies within its span, at the requested place and size. '
               'overlaps() tells exactly whether the pointer points into the span. The deep_* comparisons are the lexicographic order of the elements, consistent with each '
               'other, and read no element outside. make_vector copies the elements in order; printing a span prints its elements in order and nothing else; to_uint8_t and to_char view the same bytes. Conversions never drop const and '
               'never change the size of an element.',
     quantifier='all sizes, indices and contents (element order: all contents of spans of up to two elements against up to two); conversions: every listed type pair',
     why='Tests use a few small buffers; boundary sizes, empty spans, and conversions which must not compile are not covered.',
     files=['src/utki/span.hpp', 'src/utki/utility.hpp'], mechanism=[('span<>', 'src/utki/span.hpp'), ('overlaps', 'src/utki/span.hpp'), ('deep_equals and the other comparisons', 'src/utki/span.hpp')],
     jobs=[probe('C12_span.cpp', min_claims=200), probe('C12_make_vector.cpp', min_claims=40, flags=MODEL),
           probe('C12_print.cpp', min_claims=20, flags=STREAM, engine=STREAMS), witness('C12_witness.cpp')], min_obligations=600)

Spec('C15', title='Enumeration iteration visits each item once; enum_array has one element per item',
     statement='Iterating enum_iterable_v forwards yields exactly the items 0 .. enum_size - 1 once each in order, backwards the same in reverse, for any underlying type; '
               'size() is their number, and an enumeration without items yields nothing. enum_array has exactly one element per item, indexing by item is the element at that '
               'position, and zip_with_enum() pairs every element, by reference, with its own item. Enumerations that are not scoped or have no enum_size do not compile.',
     quantifier='enumerations of 0, 1, 2, 3, 5, 8, 200 and 300 items over signed and unsigned underlying types of 8 to 64 bits; all items and contents',
     why='Tests iterate one enumeration forwards; reverse iteration, other underlying types and the boundary items are not covered.',
     files=['src/utki/enum_iterable.hpp', 'src/utki/enum_array.hpp'], mechanism=[('enum_iterable<>', 'src/utki/enum_iterable.hpp'), ('enum_array<>', 'src/utki/enum_array.hpp')],
     jobs=[probe('C15_enum.cpp', min_claims=120), witness('C15_witness.cpp')], min_obligations=500)

Spec('C16', title='Views and container helpers visit exactly the intended elements',
     statement='utki::next and prev move by exactly n positions, also when n does not fit the difference type, and never leave the range in between. skip_front<n> visits all '
               'but the first n elements; reverse all of them backwards; zip visits i-th elements together, by reference, up to the shortest collection and nothing past it. '
               'contains() tells exactly whether a sequence has an equal element or a map has the key; end_pointer is one past the last element. flip_pair swaps; flip_map '
               'has exactly the entry value -> key for every entry of a map with distinct values, and one of the keys when they clash.',
     quantifier='all positions, distances, contents and (for spans) sizes; arrays of 0 to 4 elements, maps of up to two entries in every order',
     why='Tests walk a few literal containers; distances beyond the difference type, collections of different lengths and empty ones are not covered.',
     files=['src/utki/views.hpp', 'src/utki/utility.hpp'],
     mechanism=[('next, prev', 'src/utki/utility.hpp'), ('contains, flip_map, end_pointer', 'src/utki/utility.hpp'), ('views::zip, views::reverse, skip_front', 'src/utki/views.hpp')],
     assumptions=['std::map and std::unordered_map are represented by a model with the documented semantics (probes/model_map)'],
     jobs=[probe('C16_views.cpp', min_claims=100, flags=MODEL), probe('C16_maps.cpp', min_claims=60, flags=MODEL_MAP)], min_obligations=600)

Spec('C17', title='A signal calls every connected callback once, in order, with the same arguments',
     statement='emit() calls exactly the callbacks connected at that time, each once, in order of connection, all with the emitted arguments: what one callback does to an '
               'argument it received by value is invisible to the others, references are passed through. disconnect() removes exactly that connection and destroys its callback; '
               'the ids of the others stay valid; size() and empty() tell the number of connections. An exception of a callback reaches the caller of emit() and leaves '
               'the connections as they were. Signals are independent of each other.',
     over=['histories', 'inputs'],
     quantifier='all arguments; histories of up to four connections with any one of the first three removed in between, by value / reference / move-only arguments, a throwing callback',
     why='Tests connect a callback or two and never move out of an argument, throw, or disconnect from the middle.',
     files=['src/utki/signal.hpp'], mechanism=[('signal<>::connect / disconnect / emit', 'src/utki/signal.hpp')],
     assumptions=['_List_node_base::_M_hook and _M_unhook (in libstdc++.so) are given their documented bodies'],
     jobs=[probe('C17_signal.cpp', min_claims=80, engine=['-sa-heap-local']), witness('C17_witness.cpp')], min_obligations=300)

TREE = MODEL + ['-DSA_VECTOR_CAP=5']
Spec('C18', title='Tree traversal visits pre-order exactly once; positions and edits are exact',
     statement='Walking a traversal from begin() to end() visits every node of the forest exactly once in depth-first pre-order, with the right depth; walking back, by -- or by '
               'reverse iterators, visits them in the opposite order. index() of a position leads back to it through make_iterator(), make_const_iterator() and operator[]; '
               'is_valid() tells exactly which indices do, make_iterator() throws std::out_of_range for the others and at_level() past the depth does. Iterators compare by '
               'pre-order position. erase() removes the node with its subtree and returns the node that followed it; insert() and insert_after() put the new node where they say '
               'and return its position; nothing else of the forest changes. Constness of the collection carries over to the nodes. A tree keeps the value and children it is '
               'made from; trees are equal exactly when values and children are.',
     over=['inputs', 'histories'],
     quantifier='all ordered forests of up to three nodes (walks: up to four; thorough tier: four), every node, every pair of positions, every out-of-range step value',
     why='Tests walk one or two hand-made trees forwards; shapes in which levels end simultaneously, erasing the last child, or walking back into deep subtrees are not enumerated.',
     files=['src/utki/tree.hpp'], mechanism=[('traversal::iterator_internal', 'src/utki/tree.hpp'), ('traversal::insert / insert_after / erase', 'src/utki/tree.hpp')],
     assumptions=['std::vector is represented by a model with the documented semantics (probes/model); the collection of nodes is a model with the iterator semantics of std::vector (probes/C18_forest.hpp)',
                  'forests of more than four nodes are not analysed'],
     jobs=[probe('C18_walk.cpp', min_claims=600, flags=TREE + ['-DSA_FOREST4'], engine=['-sa-heap-local', '-sa-bits=0', '-sa-peels=12'], shards=8, strategies=0),
           probe('C18_ops.cpp', min_claims=2500, flags=TREE, engine=['-sa-heap-local', '-sa-bits=0', '-sa-peels=14'], shards=8, strategies=0,
                 thorough=dict(flags=['-DSA_FOREST4'])),
           probe('C18_tree.cpp', min_claims=30), witness('C18_witness.cpp')], min_obligations=3000)

PROBES = __import__('os').path.dirname(MODEL[0][2:])
CHARCONV = ['-I' + PROBES + '/model_charconv']
LOCALE = ['-include', PROBES + '/model_locale/locale_model.hpp']
TEXT = ['-sa-byte-sets', '-sa-path-loops', '-sa-peels=1']

Spec('C19', title='string_parser reads exactly the asked piece of the text and nothing outside',
     statement='Each operation of string_parser consumes exactly the piece it says and returns it as a view of the original characters: skip_whitespaces (and ..._and_comma) '
               'the leading ones, skip_inclusive_until(_one_of) up to and including the stop character, read_word(_until) up to the whitespace or stop character, which stays, '
               'read_chars that many or all there are, read_chars_until up to the stop character. read_char and peek_char throw std::invalid_argument at the end '
               'and then change nothing. read_number skips whitespace, takes the base of an unsigned number from its prefix (0x, 0b, 0), converts exactly the rest of the text with the standard '
               'conversion of that type in that base, returns its value and consumes what it consumed; no number there is std::invalid_argument, a number out of range gives 0. '
               'No character outside of the text is read.',
     over=['inputs', 'histories'],
     quantifier='all texts of up to three characters (bounds and consumed lengths of the counting reads: any length); all outcomes of the conversion; every integer width and floating type',
     why='Tests parse a few well-formed strings; empty and exhausted input, doubled signs and values out of range of every type are not sampled.',
     files=['src/utki/string.hpp', 'src/utki/string.cpp'], mechanism=[('string_parser::read_*', 'src/utki/string.hpp'), ('string_parser::skip_whitespaces, read_word', 'src/utki/string.cpp')],
     assumptions=['std::from_chars, std::to_chars and fast_float::from_chars are represented by models which record what they are asked (probes/model_charconv)'],
     jobs=[probe('C19_parser.cpp', ['string', 'debug'], min_claims=25, engine=['-sa-byte-sets', '-sa-path-loops', '-sa-paths=2']),
           probe('C19_exact.cpp', ['string', 'debug'], min_claims=20, engine=['-sa-byte-sets', '-sa-paths=3'], thorough=dict(flags=['-DSA_LONG'])),
           probe('C19_number.cpp', ['string', 'debug'], min_claims=2500, flags=CHARCONV, engine=['-sa-byte-sets', '-sa-paths=3'], thorough=dict(flags=['-DSA_LONG']))],
     min_obligations=3000)

Spec('C21', title='Trimming, affixes, splitting and indentation are exact for any text',
     statement='trim_front, trim_back and trim return the piece of the string without the whitespace (space and tab to carriage return) at that end, pointing into the same '
               'characters. starts_with and ends_with tell exactly whether the string begins or ends with the other one. split() cuts at every delimiter, keeping empty '
               'pieces; without a delimiter it cuts at whitespace and yields no empty piece; the pieces are copies of the characters in between, in order. make_indentation() '
               'is exactly depth tabs or depth * size spaces, without the length wrapping around. None depends on the C locale or reads outside of the text.',
     quantifier='all texts of up to three characters, all affixes of up to four; all lengths of make_indentation() that fit a string (checked with size below 2^16)',
     why='Tests try a few literals; suffixes which also occur earlier, characters above 0x7f, texts of whitespace only and huge lengths are not sampled.',
     files=['src/utki/string.hpp', 'src/utki/string.cpp'], mechanism=[('trim*, starts_with, ends_with', 'src/utki/string.hpp'), ('split, make_indentation', 'src/utki/string.cpp')],
     assumptions=['std::vector is represented by a model with the documented semantics (probes/model)', 'std::isspace(c, std::locale::classic()) is true exactly for the six whitespace characters'],
     jobs=[probe('C21_strings.cpp', ['string', 'debug'], min_claims=30, flags=LOCALE, engine=TEXT + ['-sa-paths=5']),
           probe('C21_split.cpp', ['string', 'debug'], min_claims=10, flags=MODEL + ['-DSA_VECTOR_CAP=4'] + LOCALE, engine=TEXT + ['-sa-paths=5', '-sa-heap-local']),
           probe('C21_indent.cpp', ['string', 'debug'], min_claims=20, engine=TEXT + ['-sa-paths=5', '-sa-heap-local'])], min_obligations=100)

Spec('C26', title='utki::to_string is exactly the standard conversion with the base prefix',
     statement='to_string() of an integer returns exactly the characters which std::to_chars() prints for that value in that base, preceded, for unsigned types, by the prefix of the base '
               '(0b, 0 or 0x; none for decimal), whatever their number; the conversion always has room for the longest text of the type; if the conversion fails the result '
               'is empty. Nothing is read or written outside of the buffer.',
     quantifier='all values and characters, every integer width and signedness, all bases, texts of 1, 3 and 20 characters and the longest ones of 64 bits',
     why='Tests convert a few numbers in a few bases; the longest texts (INT64_MIN in base 2, the longest double) need the whole buffer and are not sampled for every type.',
     files=['src/utki/string.hpp'], mechanism=[('to_string()', 'src/utki/string.hpp')],
     assumptions=['std::to_chars is represented by a model which records what it is asked and writes any text the type and base allow (probes/model_charconv)'],
     jobs=[probe('C26_to_string.cpp', ['debug'], min_claims=1000, flags=CHARCONV)], min_obligations=1200)

Spec('C31', title='word_wrap: lines fit the width and together hold every character in order',
     statement='word_wrap() of any text with a non-zero width yields lines none of which is longer than the width or holds a line feed; put together, the lines have all the '
               'characters of the text which are neither spaces nor line feeds, in the original order, and nothing else but spaces. In a text without spaces every line ends at a line feed, at the width or at the end of the text, and nowhere else. With a width of zero the result is a single line: the whole text.',
     quantifier='all texts of up to three characters, of four for widths one and three (thorough tier: up to five); all contents',
     why='Tests wrap a few English sentences; runs of spaces at the boundary, words as long as the line and line feeds at the boundary are not sampled.',
     files=['src/utki/string.cpp'], mechanism=[('word_wrap()', 'src/utki/string.cpp')],
     assumptions=['std::vector is represented by a model with the documented semantics (probes/model)'],
     jobs=[probe('C31_wrap.cpp', ['string', 'debug'], min_claims=200, flags=MODEL + ['-DSA_VECTOR_CAP=6'], engine=TEXT + ['-sa-paths=16', '-sa-path-blocks=300', '-sa-heap-local'], shards=8)], min_obligations=300)

Spec('C13', title='A failed assertion reports and never returns; a passed one does nothing',
     statement='utki::assert_always with a condition that does not hold writes the file, the line and, once, the text of the given print function to the standard error '
               'stream, flushes it and aborts: it never returns; with a condition that holds it prints nothing and calls nothing. utki::assert and ASSERT do the same in a debug build, '
               'for conditions given as a boolean, a checking function (called exactly once), a pointer, a smart pointer or a std::function; in a release build they '
               'have no effect at all and evaluate nothing. log and logcat write exactly what is given, in order, to the standard output stream and flush it, an empty function '
               'is ignored; their debug variants, LOG and run_debug do so in debug builds only. is_terminal_cin / cout / cerr ask about the stream of that name.',
     quantifier='both outcomes of the condition, with and without a text, output to a terminal or not, debug and release builds; all printed characters',
     why='A test cannot observe a failed assertion without dying, so none does; that release builds evaluate nothing is never tested.',
     files=['src/utki/debug.hpp', 'src/utki/debug.cpp', 'src/utki/log.hpp', 'src/utki/log.cpp', 'src/utki/utility.cpp'],
     mechanism=[('assert_always', 'src/utki/debug.cpp'), ('assert, ASSERT, LOG, run_debug', 'src/utki/debug.hpp'), ('log', 'src/utki/log.cpp'), ('is_terminal_*', 'src/utki/utility.cpp')],
     assumptions=['output streams are represented by a model which records what is written (probes/model_stream); abort(), fileno() and isatty() by ones which record the call'],
     jobs=[probe('C13_assert.cpp', ['utility', 'debug', 'log'], min_claims=20, flags=STREAM, engine=STREAMS),
           probe('C13_log.cpp', ['utility', 'debug', 'log'], min_claims=20, flags=STREAM, engine=STREAMS)], min_obligations=500)

Spec('C25', title='make_string, cat and join give exactly the parts, whatever their length',
     statement='make_string(format, ...) and make_string_va_list return exactly the text that vsnprintf() makes of the format and the arguments, of any length, also when it does not fit '
               'the first buffer: the arguments are read afresh for each attempt and an argument list is never used after its end; a failing vsnprintf() is std::logic_error. '
               'cat() is what its arguments print one after another; join() is the strings in order with one delimiter between each two and none elsewhere. '
               'make_string and make_string_view of a buffer are exactly its characters. Nothing outside of any buffer is read or written.',
     quantifier='texts of 0 to 1500 characters around the size of the first buffer, any characters; up to three strings of various lengths, empty ones included',
     why='Tests format short strings; the text which does not fit, or fits exactly, the first buffer takes another path, and reusing a consumed argument list often works by accident.',
     files=['src/utki/string.cpp', 'src/utki/string.hpp'], mechanism=[('make_string_va_list', 'src/utki/string.cpp'), ('cat, join, make_string', 'src/utki/string.hpp')],
     assumptions=['string streams are represented by a model which appends (probes/model_stream); vsnprintf() by a model that consumes the argument list and writes a text of the given length',
                  'argument lists have the x86-64 representation'],
     jobs=[probe('C25_format.cpp', ['string', 'debug'], min_claims=6, engine=['-sa-heap-local']),
           probe('C25_cat.cpp', ['string', 'debug'], min_claims=90, flags=STREAM + MODEL + ['-DSA_VECTOR_CAP=4'], engine=STREAMS)], min_obligations=1000)

DYN_EH = STREAMS + ['-sa-dyn-eh']
Spec('C22', title='Exceptions are described line by line with everything nested in them',
     statement='to_string(exception, indentation) is one line for the exception and one for each exception nested in it, outermost first and separated by newlines, every line starting with the indentation: '
               'the demangled name of the dynamic type, then ": " and what() where it is a std::exception. current_exception_to_string() does the same for whatever is being handled, of which it gives the type '
               'name only, and throws std::logic_error when nothing is. throw_with_nested(e) throws a utki::exception (not an e) which keeps the exception being handled: its to_string() has the line of e, then that of '
               'the nested exception, the own to_string() of utki exceptions being used; its what() is "exception stack:" and the same lines with the indentation "- ", again and again, or "std::bad_alloc" or "error" when making that text throws. '
               'Describing an exception lets none escape, leaves the exception being handled as it was, and gives back the memory of every demangled name.',
     quantifier='up to four exceptions in each other: library exceptions, exceptions derived from others, std::throw_with_nested() and throw_with_nested(), objects which are no exceptions; any messages of one or two characters, any indentation of two or of none',
     why='Tests sample a few nests; which line belongs to which exception depends on the types thrown, rethrown and caught at each level.',
     files=['src/utki/exception.cpp', 'src/utki/exception.hpp', 'src/utki/debug.cpp'], mechanism=[('to_string, current_exception_to_string', 'src/utki/exception.cpp'), ('stacked_exception, throw_with_nested', 'src/utki/exception.hpp')],
     assumptions=['string streams are represented by a model which appends (probes/model_stream); demangling by one which drops the first character of the name',
                  'handlers are chosen by the type descriptions of the Itanium C++ ABI; exception objects live until the end of the probe'],
     jobs=[probe('C22_exception.cpp', ['exception', 'debug'], min_claims=70, flags=STREAM + ['-DSA_STREAM_CAP=112', '-DSA_NO_MARKS'], engine=DYN_EH, shards=4)], min_obligations=500)

Spec('C27', title='get_ticks_ms() is the clock in whole milliseconds, wrapping at 32 bits',
     statement='Every call of get_ticks_ms() reads the clock of the system once and returns the whole milliseconds of that reading, rounded down, modulo 2^32: for every reading since the epoch, '
               'on both sides of any wrap, and whatever earlier calls returned; so the difference of two results is the milliseconds that passed while those are fewer than 2^32.',
     quantifier='any non-negative 64-bit reading of the clock, any later reading for the next call',
     why='A test sees the readings of the minute in which it runs: overflow on the way to milliseconds, rounding and the wrap are years away from it.',
     files=['src/utki/time.cpp', 'src/utki/time.hpp'], mechanism=[('get_ticks_ms', 'src/utki/time.cpp')],
     assumptions=['the clocks of std::chrono and clock_gettime() are represented by models which give one reading per call'],
     jobs=[probe('C27_ticks.cpp', ['time'], min_claims=4)], min_obligations=4)

Spec('C28', title='demangle() gives the demangled or the plain name and releases the memory',
     statement='demangle(type) is exactly the text which abi::__cxa_demangle() makes of the name of the type when it succeeds, and the name itself when it does not, whatever the failure; '
               'the memory of the demangled text is given back to free() exactly once, after the text is copied, and nothing else is; no exception escapes.',
     quantifier='any status of abi::__cxa_demangle(); demangled texts of up to two arbitrary characters',
     why='Tests demangle names which are valid; what happens on failure, and to the memory, is invisible to them.',
     files=['src/utki/debug.cpp'], mechanism=[('demangle', 'src/utki/debug.cpp')],
     assumptions=['abi::__cxa_demangle() and free() are represented by models: one text, given back once'],
     jobs=[probe('C28_demangle.cpp', ['debug'], min_claims=12, flags=STREAM, engine=DYN_EH)], min_obligations=12)

Spec('C14', title='The configuration macros describe the target they are compiled for',
     statement='For every target, CFG_OS and CFG_OS_NAME name its operating system, CFG_COMPILER the compiler, CFG_ENDIANNESS its byte order and CFG_CPP the language standard in use. '
               'CFG_CPU is the processor family of the target, or CFG_CPU_UNKNOWN where it is not detected (clang, unlisted processors), never another one, and CFG_CPU_BITS is its pointer '
               'width (0 when unknown). DLLEXPORT is always defined: export or import with the Microsoft compiler, by _USRDLL. The values of one macro are distinct. '
               'The header can be included repeatedly.',
     over=['inputs'],
     quantifier='37 targets (Linux, Android, Windows, macOS, iOS, FreeBSD, Solaris, Emscripten and others; x86, ARM, big and little endian), as clang, GNU and Microsoft compiler, standards C++98 to C++23',
     why='Tests run on one machine with one compiler: every other branch of the header is never even preprocessed.',
     files=['src/utki/config.hpp'], mechanism=[('CFG_* macros', 'src/utki/config.hpp')],
     assumptions=['the macros predefined by the compiler for a target are those clang 18 predefines for it; the GNU compiler is represented by the same ones without __clang__'],
     jobs=[rule(rules.config_job)], min_obligations=400)

Spec('C23', title='Integer powers, sign and angle conversions are mathematically right',
     statement='pow2 to pow6 of an integer are the product of that many factors (modulo the width for unsigned types; without overflow on the way for signed ones whose power is representable); sign() is -1 exactly for '
               'negative numbers and 1 otherwise. deg_to_rad() and rad_to_deg() are inverse to each other and map 180 degrees to pi, proportionally. The constants have their values; '
               'the result has the type of the argument and everything is usable in constant expressions.',
     quantifier='all 32-bit and 64-bit unsigned values, all 8-bit ones in 64-bit signed arithmetic (powers); all values of every type (sign); angles: listed values only',
     why='Tests evaluate a few small numbers; overflow in intermediate products and the type of the result are not looked at.',
     files=['src/utki/math.hpp'], mechanism=[('pow2 .. pow6, sign, deg_to_rad, rad_to_deg', 'src/utki/math.hpp')],
     jobs=[probe('C23_math.cpp', min_claims=25), witness('C23_witness.cpp')], min_obligations=60)

Spec('C24', title='Type traits and variant helpers classify every type correctly',
     statement='uint_size and int_size give the smallest standard integer of at least that many bytes (1 to 8) of that signedness; remove_const_pointer and remove_const_reference drop '
               'exactly one pointer, or reference of either kind, and the const under it; is_type_defined and type_or_void tell whether there is an accessible member type; '
               'is_specialization_of tells exactly the specializations of that template; is_scoped_enum is true exactly for scoped enumerations, whatever their underlying type. '
               'index_of is the position of exactly that alternative and does not compile for a type which is none, even if it converts to one; overloaded calls the overload of the type at '
               'hand; offset_sequence adds the offset to every index. The bit masks have their bits. A destructable has a virtual, non-throwing destructor.',
     quantifier='all sizes; the listed types, of every kind the traits distinguish',
     why='These are compile-time facts: a run-time test sees only the few instantiations it makes, and cannot see that something does not compile.',
     files=['src/utki/type_traits.hpp', 'src/utki/variant.hpp', 'src/utki/utility.hpp', 'src/utki/destructable.hpp'],
     mechanism=[('traits', 'src/utki/type_traits.hpp'), ('index_of, overloaded', 'src/utki/variant.hpp'), ('offset_sequence', 'src/utki/utility.hpp')],
     jobs=[witness('C24_witness.cpp')], min_obligations=40)
Spec('C20', title='linq steps give exactly the documented elements; lvalues stay untouched',
     statement='select gives the result of the function for each element, in order, with the index of the element when it takes one, calling it once per element; where gives exactly '
               'the elements for which the predicate holds, whole and in order; order_by gives each element once, in non-decreasing order of the key; group_by gives one '
               'group for each key that occurs, with exactly the elements of that key, in order; steps of a chain apply one after another. A collection given as an lvalue is left as it was (in size, order and '
               'content); no function is ever given an element which has been moved from, and no such element is in a result. Functions which '
               'could write to an element, a predicate which is not bool and an order over temporaries do not compile.',
     quantifier='all collections of up to 3 elements (2 for group_by; of any size for select and where), lvalue and rvalue, of all values',
     why='Moved-from elements, lost elements and a modified source appear only with particular mixes of values and value categories.',
     files=['src/utki/linq.hpp'], mechanism=[('linq, linq_collection_aggregator', 'src/utki/linq.hpp')],
     jobs=[probe('C20_linq.cpp', ['debug'], min_claims=170, flags=MODEL + MODEL_MAP + [MODEL[0] + '_sort', '-DSA_VECTOR_CAP=4'],
                 engine=['-sa-heap-local', '-sa-path-loops', '-sa-peels=1', '-sa-paths=6'], shards=4),
           probe('C20_many.cpp', ['debug'], min_claims=10), witness('C20_witness.cpp')], min_obligations=500)


Spec('C32', title='sort leaves every element once, in the order of the comparator',
     statement='After sort(first, last, comp) the range holds exactly the elements it held before, each once and whole, and no element precedes its predecessor in the order of comp (less-than when '
               'none is given); elements outside of the range are neither read nor written, and the recursion ends. It can be used while compiling.',
     quantifier='all contents, with any pattern of equal elements, of ranges of up to 4 elements',
     why='A partition that is off by one, or a pivot which moves while it is compared with, shows only for some relative orders of the elements; tests sort a few arrays.',
     files=['src/utki/sort.hpp'], mechanism=[('sort, sort_internal::quick_sort', 'src/utki/sort.hpp')],
     assumptions=['where the library hands over to std::sort (C++20) that one sorts'],
     jobs=[probe('C32_sort.cpp', min_claims=25, flags=[MODEL[0] + '_sort'], engine=['-sa-recursion=4', '-sa-path-loops', '-sa-peels=1', '-sa-paths=20'], shards=4),
           witness('C32_witness.cpp')], min_obligations=100)

DS, LIB, EXT, STO, UE = 'src/decoding_sci.rs', 'src/lib.rs', 'src/decoding_sci_ext.rs', 'src/storage_data.rs', 'src/unchecked_extrinsic.rs'
CA, PB, SI, ST, PR, TR, CO, AT = 'src/cards.rs', 'src/printing_balance.rs', 'src/special_indicators.rs', 'src/special_types.rs', 'src/propagated.rs', 'src/traits.rs', 'src/compacts.rs', 'src/additional_types.rs'
REF = 'Sampled, not exhaustive. Trusted: the reference interpreter in harness/src/walk.rs (written from the documented SCALE and metadata rules), scale-info, proptest and the build.'

p('C01', 'Decoding reports exactly the encoded value',
  'For every type that a type registry can describe and every value of it, decoding the SCALE encoding of the value succeeds and reports exactly that value: every scalar, text, byte and bit, every enum choice, every field name, in the encoded order and nesting. Nothing is lost, duplicated, reordered or attributed to another field.',
  ['inputs', 'configurations'], 'all registries (nesting of structs, tuples, enums, vectors, arrays, compacts, bit sequences, special types, recursion through enums and vectors) x all values',
  'Existing tests decode a few dozen fixed strings with bundled metadata; registry shapes and values outside those are never tried.',
  [DS, LIB, CA], [('recursive decoder', DS + ' decode_with_type'), ('field sets', DS + ' decode_fields'), ('element sets', DS + ' decode_elements_set'), ('sequence wrapping', ST + ' wrap_sequence')],
  ['decode_all_as_type'], 'property-based testing: generated registries and values against a reference interpreter (round trip)', REF)

p('C02', 'Decoding agrees with the native SCALE codec of the described type',
  'For a type registry derived from real Rust types, decoding any byte string as one of the types succeeds exactly when the type\'s own SCALE decoder accepts those bytes in full, and reports the same value. This includes non-canonical compacts, invalid bools, chars, texts, enum indices and truncated or extended input.',
  ['inputs', 'programs'], 'a family of Rust types covering every SCALE construct x all byte strings (valid encodings, mutations of them, arbitrary bytes)',
  'Tests never compare with the codec of the type itself and hardly ever give invalid bytes.',
  [DS, CO], [('primitive decoding', ST + ' StableLength, UnsignedInteger, CheckCompact'), ('compact', CO + ' find_compact')],
  ['decode_all_as_type'], 'property-based testing: differential against parity-scale-codec on TypeInfo-derived types, valid, mutated and arbitrary bytes',
  'Sampled. Trusted: parity-scale-codec and scale-info derive as the specification of the encoding. Per-thing compacts above their maximum and zero-sized element counts are outside the compared region (documented differences).')

p('C03', 'Decoding consumes exactly the value, wherever it sits',
  'Decoding a value at a position reads exactly its encoding: the position ends just past the last byte of it, the result does not depend on any byte before or after it, every proper prefix of the encoding is rejected, and a decoder asked to use all data rejects any trailing byte and names where the unused data begins.',
  ['inputs'], 'all registries, values, prefixes, suffixes, cut points',
  'Tests always give exact input from position 0; offsets and leftovers are nearly untested.',
  [DS, LIB, CO], [('position threading', DS + ' decode_with_type'), ('leftover check', LIB + ' decode_all_as_type')],
  ['decode_as_type_at_position', 'decode_all_as_type'], 'property-based testing: metamorphic (prefix, suffix, truncation at every cut) on generated cases', REF)

p('C04', 'Arbitrary bytes and arbitrary registries never crash or hang the parser',
  'Whatever the bytes and whatever the type registry or metadata (dangling references, cycles, wrongly shaped special types, empty enums, odd bit orders), every decoding entry point returns a value or an error, without panic, and in time and memory bounded in terms of the input. ',
  ['inputs', 'configurations'], 'all byte strings x all well-formed and malformed registries, for type, call, extension, transaction, unchecked-extrinsic and storage decoding',
  'Tests contain one or two malformed inputs; hostile input is unbounded.',
  [DS, EXT, UE, STO, LIB, ST, SI], [('checked reads everywhere', 'external_memory_tools AddressableBuffer'), ('cycle guard', PR + ' Checker::check_id')],
  ['all public decoding functions'], 'fuzzing: random and mutated bytes over malformed registries and real metadata; oracle: no panic, crash, hang, or excess work (counted reads, memory held, processor time on megabytes)',
  'Sampled. Work is bounded by counted buffer reads, memory held, and processor time on values of megabytes. Unbounded native recursion on nested calls and counts of zero-size elements are listed findings.')

p('C05', 'Unsound self-referring types are reported, sound ones are decoded',
  'A type that contains itself without any encoded choice or length in between is reported as cyclic metadata for any data, instead of endless work. A type that refers to itself through an enum variant or a vector element is decoded normally, and repeated use of one type side by side is never mistaken for a cycle.',
  ['configurations', 'inputs'], 'all reference cycles through fields, tuples, arrays, compacts and element types, of any length and entry point',
  'One hand-made cycle is tested; the guard is threaded through a dozen places.',
  [PR, DS], [('visited ids', PR + ' Checker::check_id, drop_cycle_check'), ('element husking', DS + ' husk_type')],
  ['decode_all_as_type', 'husk_type'], 'property-based testing: generated cyclic and acyclic registries against a graph-based oracle', 'Sampled. Trusted: the graph definition of unsound cycles in the harness.')

p('C06', 'Compact integers: canonical only, exact range, value at any depth',
  'A compact integer is accepted exactly when it is the canonical SCALE encoding of a number in range of its type, with the value reported exactly and exactly its bytes consumed, at any width from 8 to 128 bits and under any stack of single-field wrappers. A compact around anything that is not an unsigned integer inside such wrappers is reported as an error in the metadata.',
  ['inputs', 'configurations'], 'all byte strings at each width; all inner types',
  'Tests use canonical compacts only, of a few values.',
  [CO, DS, PR], [('find_compact', CO), ('compact flag', PR + ' SpecialtySet::reject_compact')],
  ['find_compact', 'get_compact', 'decode_all_as_type'], 'property-based testing and exhaustive enumeration of 1-2 byte forms against an arithmetic oracle', 'Complete for all one- and two-byte inputs and every mode byte with boundary payloads; sampled beyond. Trusted: harness compact arithmetic.')

p('C07', 'Bit sequences keep every bit for every store width and bit order',
  'For each store width (8, 16, 32, 64) and each bit order, decoding an encoded bit sequence of any length reports exactly the same bits in the same order, ignores only the unused bits of the last store element, and consumes exactly the whole store elements. This holds on 64-bit and on 32-bit platforms.',
  ['inputs', 'configurations'], 'all lengths 0..N, store widths, orders and bit patterns',
  'Tests contain a handful of bit vectors, no 64-bit store on a 32-bit platform.',
  [DS], [('decode_type_def_bit_sequence', DS), ('BitVecPositions', DS), ('reform_vec_*', DS)],
  ['decode_all_as_type'], 'property-based testing plus enumeration of all lengths, against independent bit packing and the bitvec codec', 'Lengths 0..1100 enumerated for every width and order with several patterns; other patterns sampled. 32-bit behaviour is decided under C28.')

p('C08', 'Special types are recognised by their path and only by it',
  'Account ids, 160/256/512-bit hashes, fractions (percent, permill, perbill, perquintill, per-u16), public keys, signatures and multi-signatures are reported as such with exactly their bytes or value when the type carries the well-known path, and values out of range of a fraction are rejected. A type with any other path, however similar, is decoded as its ordinary definition, with identical byte consumption.',
  ['inputs', 'configurations'], 'all special types, all near-miss paths and shapes, all byte contents',
  'Tests meet special types only in the form that the bundled metadata contains.',
  [SI, ST, DS], [('path recognition', SI + ' SpecialtyTypeHinted::from_type'), ('checked recognition', SI + ' SpecialtyTypeChecked'), ('special decoding', ST)],
  ['decode_all_as_type'], 'property-based testing: special types and near-miss lookalikes against the reference interpreter', REF)

p('C09', 'Transaction mortality is decoded exactly as the chain encodes it',
  'Every mortality field is reported as immortal or with exactly the period and phase that the chain\'s own definition assigns to those bytes, consuming one byte for immortal and two otherwise; byte pairs that no chain produces are rejected. Encoding a reported mortality gives back the original bytes, and any mortality made by hand (period a power of two, phase below it) is encoded as the chain would.',
  ['inputs'], 'all 65536 byte pairs, all single bytes',
  'Tests contain two or three eras.',
  [AT, ST], [('Era codec', AT), ('era position', ST + ' special_case_era')],
  ['Era::decode', 'Era::encode', 'decode_all_as_type'], 'exhaustive enumeration of all byte pairs against an independent era oracle, plus embedded generated cases', 'Complete over all one- and two-byte inputs.')

p('C10', 'Calls and events are attributed to the right pallet and item',
  'A runtime call or event is reported with the name of the pallet and of the item that its two index bytes select in the metadata, with that item\'s documentation and exactly that item\'s arguments in order. Unknown indices are rejected, and enums which only resemble a runtime call are reported as ordinary enums.',
  ['inputs', 'configurations'], 'all metadata layouts with arbitrary index assignments, nested calls, and all real bundled metadata x every pallet and item',
  'Tests decode about twenty calls; the bundled metadata define thousands.',
  [DS, SI, CA], [('decode_as_call', DS), ('pallet-specific check', SI + ' SpecialtyTypeChecked::try_from_type'), ('pick_variant', DS)],
  ['decode_as_call_unmarked', 'decode_all_as_type'], 'property-based testing: every call/event of all bundled metadata and generated layouts with scattered indices, against the reference', REF)

p('C11', 'Hints change only how a number or text is understood',
  'A number, hash or text is marked as balance, tip, nonce, version, spec name, genesis or block hash exactly when the documented field name, type name or extension name applies to it and no unrelated structure intervenes; otherwise it is unmarked. The mark never changes the value, the bytes consumed or the success of decoding.',
  ['inputs', 'configurations'], 'all combinations of extension identifiers, field names, type names and wrapping structure',
  'Tests observe hints on a few fixed extensions.',
  [PR, SI], [('propagation', PR + ' Checker::update_for_field/forget_hint'), ('hint sources', SI + ' Hint::from_*')],
  ['decode_with_type', 'decode_all_as_type'], 'property-based testing: reference hint propagation, plus metamorphic renaming (hints erased: same value, same consumption)', REF)

p('C12', 'Signable transactions split into call and extensions at the declared border',
  'A signable transaction starts with the call length: the call is decoded from exactly that many bytes, the rest is extensions, and a length that is unreadable or exceeds the data is rejected. A failure inside the call part is reported without disturbing the decoded extensions, unused call bytes are reported with their exact range, and without the length prefix the same call and extensions give the same results.',
  ['inputs', 'configurations'], 'all calls, extension sets, length prefixes (exact, short, long, malformed) and corruptions',
  'Tests use well-formed transactions and two malformed ones.',
  [LIB, DS, EXT], [('MarkedData::mark', LIB), ('parse_transaction', LIB), ('decode_as_call', DS), ('parse_transaction_unmarked', LIB)],
  ['parse_transaction', 'parse_transaction_unmarked', 'MarkedData'], 'property-based testing: synthetic and real metadata transactions, with every border and corruption, against a model', REF)

p('C13', 'Signed extensions are all decoded, in order, and all data is used',
  'The extensions part is decoded as the explicit contents of every extension in metadata order followed by the implicit contents of every extension in the same order, each reported exactly once with its value and meaning. Missing data and any unused trailing data are errors.',
  ['inputs', 'configurations'], 'all extension lists (any order, count, types) and contents',
  'Bundled metadata have a handful of similar extension lists.',
  [EXT, PR], [('decode_extensions_unmarked', EXT), ('hint from identifier', PR + ' Propagated::from_ext_meta')],
  ['decode_extensions', 'decode_extensions_unmarked'], 'property-based testing: generated extension lists in synthetic V14/V15 metadata against the reference', REF)

p('C14', 'Transactions for another chain or runtime version are refused',
  'Extensions are accepted only if they contain exactly one specification version, equal to the metadata\'s, and exactly one genesis hash, equal to the expected one when that is given; an immortal transaction must use the genesis hash as its block hash, and repeated mortality, genesis, block hash or version is refused. Each refusal names the actual reason, and a transaction that satisfies the conditions is never refused.',
  ['inputs', 'configurations'], 'all extension lists with any of these items present, absent, repeated, wrapped or mismatched',
  'Tests check two of these refusals on one chain.',
  [EXT], [('check_extensions', EXT), ('CollectedExt', EXT)],
  ['decode_extensions', 'parse_transaction'], 'property-based testing: decision-table model over generated extension contents', 'Sampled over a small product space that is visited densely. Trusted: the decision table in the harness.')

p('C15', 'Unchecked extrinsics: length, version and every part accounted for',
  'An unchecked extrinsic is accepted only if its length prefix equals the remaining data, its version matches the metadata, and its contents use up all bytes; a signed one then yields address, signature, extra and call, an unsigned one the call alone, each exactly as encoded. Anything else is an error, never a partial result.',
  ['inputs', 'configurations'], 'all extrinsics of all metadata (V14 types from parameters, V15 explicit types), all length/version bytes, all corruptions',
  'Tests decode four fixed extrinsics.',
  [UE, TR], [('decode_as_unchecked_extrinsic', UE), ('extrinsic_type_params', TR)],
  ['decode_as_unchecked_extrinsic'], 'property-based testing: synthetic and real metadata extrinsics, corruption of prefix, version and body, against a model', REF)

p('C16', 'Storage keys are parsed by their declared hashers, and hashes are checked',
  'A storage key is accepted only if it has the 32-byte prefix followed by exactly the parts that the declared hashers and key types demand: opaque hashers yield the hash bytes, transparent ones the decoded key, and a concatenated hash that does not match the key it precedes is refused. Every part is reported in order with exactly its bytes, and missing, extra or mismatched parts are errors.',
  ['inputs', 'configurations'], 'all hasher lists, key types and key values; single-bit corruptions of hashes',
  'Tests contain a dozen real keys.',
  [STO], [('process_key_mapped', STO), ('cut_hash!/check_hash!', STO)],
  ['decode_as_storage_entry', 'process_key_mapped'], 'property-based testing: generated hasher lists and keys against a model with independent hashing; corruptions', 'Sampled. Trusted: blake2 and twox reference implementations from the crate cache used by the harness.')

p('C17', 'Storage values are decoded in full, together with their key',
  'A storage entry, plain or mapped, yields its key and its value decoded by the declared value type with all value bytes used, together with the entry documentation; for a plain entry nothing but the 32-byte prefix is allowed as key. Failures in key and value are reported as such.',
  ['inputs', 'configurations'], 'all entries of all bundled metadata and generated entries; all values',
  'Tests decode about ten entries; the metadata define over two thousand.',
  [STO], [('decode_as_storage_entry', STO)],
  ['decode_as_storage_entry'], 'property-based testing: every storage entry of the bundled metadata and generated entries against the reference', REF)

p('C18', 'Metadata versions 14 and 15 of one runtime give identical results',
  'The same runtime described by metadata version 14 and version 15 gives identical results for calls, extensions, transactions, unchecked extrinsics and versions. The address, call, signature and extra types of an extrinsic are found by name among the type parameters, in any order, and a missing one is an error.',
  ['configurations', 'inputs'], 'all generated runtimes in both formats, converted real metadata, all orders of type parameters',
  'No test has the same runtime in both versions.',
  [TR], [('AsMetadata for V14/V15', TR), ('process_extrinsic_type_params', TR)],
  ['AsMetadata', 'AsCompleteMetadata', 'parse_transaction', 'decode_as_unchecked_extrinsic'], 'property-based testing: differential between V14 and V15 renderings of the same runtime', 'Sampled. Trusted: the harness conversion of V14 into V15 metadata.')

p('C19', 'Runtime name and version come from the System Version constant',
  'The reported specification name and version are exactly those in the Version constant of the System pallet, wherever the fields stand in its structure and whatever unsigned type the version has. Absent, undecodable, incomplete or ambiguous constants are errors that say what is wrong.',
  ['configurations'], 'all shapes of the version constant, all positions of pallet and constant',
  'Tests read it from well-formed metadata only.',
  [TR], [('spec_name_version_from_runtime_version_data', TR), ('version_constant_data_and_ty!', TR)],
  ['spec_name_version'], 'property-based testing: generated version constants and pallet lists against a model, V14 and V15', 'Sampled. Trusted: the model in the harness.')

p('C20', 'Results do not depend on how the data and metadata are stored',
  'Decoding the same bytes with the same types gives identical results and errors whether data sit in memory or in external memory that is read piecewise, and whether the registry is held whole or types are fetched one at a time. No read starts behind the end of the data, and a value is never reported after a read outside of the data was refused, except for the single byte asked for to see which variant follows.',
  ['inputs', 'configurations'], 'all inputs for all decoding functions, several storage back ends',
  'Only the in-memory slice is tested.',
  [DS, LIB, TR, STO], [('AddressableBuffer reads', 'external-memory-tools'), ('ResolveType', TR)],
  ['all decoding functions with custom ExternalMemory, buffer and registry'], 'property-based testing: differential between slice, external-memory buffer and paged registry with bounds monitoring', REF)

p('C21', 'A failing external memory turns into an error, never into a wrong value',
  'If external memory fails at any request, for data or for a type, once or from then on, decoding reports an error and never a value that the failing request was needed for. The error carries the failure, except where the length in front of a transaction is looked for: that error says only that the length was not found.',
  ['fault_sequences', 'inputs'], 'a fault at every read index of every case',
  'No test injects faults.',
  [DS, STO, LIB, SI], [('error propagation of BufferError::External', DS), ('hash check', STO)],
  ['decode_all_as_type', 'decode_as_storage_entry', 'parse_transaction', 'decode_as_unchecked_extrinsic'], 'property-based testing with fault injection: a fault at every request of generated cases, once and for good', 'Every request of a sampled case when these are at most 40, else 40 of them.')

p('C22', 'Cards show everything decoded, in order, at the right depth',
  'The printable cards of decoded data list every decoded leaf, announcement, field name or number and variant name exactly once, in encoding order, each indented below its container, with the documentation and paths that belong to it. A call or event shows the information of its pallet, an empty struct or tuple shows nothing. No card is invented, dropped or attached to another container.',
  ['inputs'], 'all decoded data: calls, extensions, generated values of any shape',
  'Tests print about thirty transactions.',
  [CA, LIB], [('ParsedData::card', CA), ('card_field_set', CA), ('TransactionParsed::card', LIB)],
  ['ExtendedData::card', 'Call::card', 'TransactionParsed::card', 'TransactionUnmarkedParsed::card'], 'property-based testing: independent reference carder over generated and decoded data', 'Sampled. Trusted: reference carder in the harness.')

p('C23', 'Displayed text shows the exact value',
  'The text of every card states the kind and the exact value: integers in full decimal, bytes in full hex, fractions as parts, account ids in the chain\'s base58 with correct prefix and checksum, texts verbatim, and the picture of an account is the one of its bytes. Two different values of one kind never display the same text, and parsing the display recovers the value.',
  ['inputs', 'configurations'], 'all leaf values, base58 prefixes, indents, documentation',
  'Tests compare a few rendered strings.',
  [CA], [('ExtendedCard::show, show_with_docs', CA), ('IdData', CA)],
  ['ExtendedCard::show', 'ExtendedCard::show_with_docs'], 'property-based testing: parse-back of displayed text and comparison with a reference renderer', 'Sampled. Base58 and ss58 checksums are recomputed independently.')

p('C24', 'Pretty-printed balances equal the balance exactly',
  'A displayed balance, read back as decimal number times its metric prefix, equals the raw amount divided by ten to the power of the chain\'s decimals, exactly and without rounding, for every amount and every decimals setting. Every digit of the amount is shown, no zero is put in front beyond one before the point, and one to three digits stand before the point whenever a prefix exists for the size.',
  ['inputs', 'configurations'], 'all amounts of 8 to 128 bits x decimals 0..255 x unit names',
  'Tests check a few dozen pairs.',
  [PB], [('convert_balance_string', PB), ('assist', PB)],
  ['AsBalance::convert_balance_pretty'], 'property-based testing: exact decimal arithmetic read-back, plus enumeration of decimals and powers of ten', 'All decimals 0..255 crossed with boundary amounts enumerated; other amounts sampled.')

p('C25', 'Documentation and names are carried over unchanged',
  'Every type path, type documentation, field documentation, type name and variant documentation that the metadata attach to the decoded items is reported, unchanged, complete and in outer-to-inner order, with the item it belongs to, and nothing else is reported.',
  ['configurations', 'inputs'], 'all registries with arbitrary documentation and paths on every level',
  'Tests compare docs in a few cases.',
  [CA, DS, PR], [('Info', CA), ('Documented', CA), ('add_info', PR)],
  ['decode_all_as_type', 'decode_as_storage_entry'], 'property-based testing: unique documentation tokens on every registry item, conservation and placement checked', REF)

p('C26', 'Errors name the true cause and place',
  'When a valid encoding is damaged at one place (cut short, invalid bool, char, text, enum index, compact, fraction or mortality), decoding fails with an error of that kind, and every position, length and type it reports is the true one.',
  ['inputs'], 'all registries, values and single damages',
  'Tests check very few errors.',
  [DS, ST, CO, 'src/error.rs'], [('ParserError construction', DS), ('BufferError', 'external-memory-tools')],
  ['decode_as_type_at_position'], 'property-based testing: single-fault injection at recorded token positions of generated encodings', REF)

p('C27', 'Results do not depend on type numbering or unrelated types',
  'Renumbering the types of a registry, duplicating types, adding unrelated types or reordering enum variants leaves all results for the same data unchanged. Decoding is deterministic and does not change the data or the metadata.',
  ['configurations', 'inputs'], 'all permutations and extensions of all registries',
  'Each test uses one fixed registry.',
  [DS, TR], [('resolve_ty by id', TR), ('pick_variant by index', DS)],
  ['decode_all_as_type', 'parse_transaction'], 'property-based testing: metamorphic renumbering, duplication and extension of registries', 'Sampled; the relation needs no reference.')

p('C28', 'All supported platforms and feature sets give the same results',
  'The parser built without the standard library on a 32-bit platform gives the same values, errors and displayed cards as the standard build on a 64-bit platform, for the same data and metadata, also where the memory that holds the data can not be read.',
  ['configurations', 'inputs'], 'all inputs, both builds',
  'Tests run on a 64-bit host with std only.',
  [DS, LIB, CA, 'Cargo.toml'], [('32-bit patches', DS + ' impl_patched!'), ('no_std gates', LIB)],
  ['decode_all_as_type', 'cards'], 'property-based testing: differential of a 32-bit no_std wasm build against the native std build on generated cases', 'Sampled. Trusted: wasm32 target as the 32-bit platform, node as executor, standard library rebuilt from rust-src for the harness only (the parser itself is built without its std feature).')

p('C29', 'Exported building blocks tell the same as the decoder',
  'The parts of the decoder that are exported for building other walkers (variant selection, compacts, bit sequence borders and bit orders, recognition of special types, element husking, propagated marks and hints, primitives, type and doc information) tell, for every registry, data and position, exactly what the decoder concludes there, so that a walker made of them ends at the same place with the same values and the same errors. Recognising a special type moves the position by the variant index that it read if the type is a call, an event or a multi-signature with known signature, and leaves the position where it was in all other cases.',
  ['inputs', 'configurations'], 'all registries x all types and fields in them x all data and positions',
  'Most of these functions have no test of their own; through the decoder they are only used in one order and at places that the decoder chose.',
  [DS, SI, PR, CO, CA], [('recognition', SI + ' SpecialtyTypeChecked::from_type'), ('blocks of decoding', DS + ' pick_variant, husk_type, BitVecPositions, find_bit_order_ty'), ('marks', PR + ' Checker, Propagated')],
  ['SpecialtyTypeChecked::from_type', 'pick_variant', 'husk_type', 'BitVecPositions', 'get_compact', 'Propagated'], 'property-based testing: a second walker made only of the exported blocks, against the reference interpreter and the decoder; each block alone against its own model', REF)

p('C30', 'The text of an error names its cause and every value it carries',
  'The printed text of every error names the cause and shows every position, length, type number, version and hash that the error carries, each in its true role, and contains the whole text of an error that it wraps. Two different errors of one type never print the same text, and a conversion between error types keeps the error.',
  ['inputs'], 'all error variants x all values they can carry x all errors inside them',
  'Tests compare a handful of printed errors; most variants are never printed, and none with values of other sizes.',
  ['src/error.rs'], [('texts', 'src/error.rs error_text'), ('conversions', 'src/error.rs From implementations')],
  ['Display of SignableError, ParserError, StorageError, UncheckedExtrinsicError, RegistryError, MetaStructureErrorV14'],
  'property-based testing: generated errors and their neighbours, printed; values read back from the text, injectivity, words of the cause; enumeration of all variants at border values',
  'All variants enumerated, values sampled and at borders. The wording itself is free. Trusted: BufferError of external-memory-tools prints its own values.')

p('C31', 'Results do not depend on earlier or simultaneous decodings',
  'The result of a decoding depends on nothing but the data, the position, the metadata and the settings given to it: not on what was decoded before, with other data or other metadata, nor on what is decoded at the same time on other threads. Repeating a decoding gives the same result again, and everything displayed from it is the same again.',
  ['histories', 'schedules'], 'all sequences of decodings of all data with all metadata, on any threads of one process',
  'Every test decodes once or with one metadata; what one decoding leaves behind for the next one is never looked at.',
  [LIB, DS, PR, SI, CA, ST], [('no state but the arguments', LIB + ' entry points'), ('propagated state made anew', PR + ' Propagated::new')],
  ['decode_all_as_type', 'parse_transaction', 'parse_transaction_unmarked', 'decode_as_unchecked_extrinsic', 'decode_as_storage_entry', 'cards'],
  'property-based testing: generated histories of decodings on one to three threads of a fresh process, each result compared with that of a process of its own',
  'Sampled. Thread interleavings are those the machine makes; no scheduler is driven.')

p('C32', 'Exported records keep their stored form',
  'Chain specs, spec name and version, signed-extension records and extrinsic type parameters encode to exactly the SCALE encoding of their fields in the declared order, decode back to the same record with exactly those bytes used, and refuse anything cut or invalid. A signed-extension record has the same bytes as the one of the runtime metadata it was made from.',
  ['inputs'], 'all contents of the records x all damaged encodings',
  'No test encodes or decodes them; a record stored by one build and read by another is only right if the form never changes.',
  [LIB, TR], [('derived codecs', LIB + ' ShortSpecs; ' + TR + ' SpecNameVersion, SignedExtensionMetadata, ExtrinsicTypeParams'), ('conversion', TR + ' impl_signed_extension_metadata_from')],
  ['Encode and Decode of the records', 'SignedExtensionMetadata::from'],
  'property-based testing: generated records written and read against a codec of the harness; damaged bytes accepted exactly when the model accepts them',
  'Sampled. Trusted: the model of the record forms in harness/src/props/c32.rs.')

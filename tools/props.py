import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=hook
    assert len(title)<=80,(id,len(title))
    P.append(d)
BC='llvm-bitcursor/src/lib.rs'; BP='llvm-bitstream/src/parser.rs'; BA='llvm-bitstream/src/abbrev.rs'; BL='llvm-bitstream/src/lib.rs'
U='llvm-mapper/src/unroll.rs'; MOD='llvm-mapper/src/block/module.rs'; TT='llvm-mapper/src/block/type_table.rs'
AT='llvm-mapper/src/block/attributes.rs'; AL='llvm-support/src/align.rs'; TY='llvm-support/src/ty.rs'
hook="cfg(mollusc_verif): observe the mapped types, attributes, records of a module, which the public model does not carry yet"
cst=[('position','where the next bit comes from',BC+': byte_pos, bit_index'),('current word','bits fetched but not yet consumed',BC+': current_block')]
p('C01','Fixed-width reads return exactly the requested bits of the stream',
 "For every buffer, position and width from 1 to 63 bits, a read that fits into what remains returns exactly those bits of the stream (least significant bit of each byte first, earlier bits in lower positions of the result) and moves the position forward by exactly the width. A read that does not fit, or that asks for 0 or for 64 or more bits, is an error, never a short or made-up value. A typed read returns the same number, or an error if the number does not fit the requested type.",
 ['inputs','histories'],"every buffer length and content, every sequence of reads and seeks that leads to a position, every width",
 "The tests read a few hand-picked widths from a few literal buffers; the interplay of position, word boundary, buffer tail and width is a product space they touch in a handful of points.",
 [BC],[('fast path / split read',BC+': BitCursor::read'),('word fetch, short tail',BC+': load_current_block'),('typed reads',BC+': read_as, read_exact')],cst,['BitCursor::read','BitCursor::read_as','BitCursor::read_exact','BitCursor::tell_bit'])
p('C02','Positions, seeks and exhaustion describe one consistent stream position',
 "After any sequence of successful operations the reported bit position, byte position (the bit position rounded down to bytes), lengths and exhaustion (true exactly at the end) describe the position from which the next read takes its bits. A seek by bits, or by bytes from the start, the end or the current byte, to any target from the start up to and including the end of the stream succeeds and reads continue with the bits found there. A seek to a target before the start or past the end is an error, and a failed byte seek leaves the position unchanged.",
 ['histories','inputs'],"every sequence of reads, VBR reads, alignments and seeks (of all kinds, to all targets), over every buffer length",
 "Position and prefetch state depend on the whole history of operations; the tests run single short scripts and hardly mix seeks with partially consumed words.",
 [BC],[('bit seek with word resync',BC+': seek_bit'),('io::Seek implementation',BC+': impl Seek'),('position queries',BC+': tell_bit, tell_byte, exhausted')],cst,['BitCursor::seek_bit','io::Seek for BitCursor','BitCursor::tell_bit','BitCursor::exhausted'])
p('C03','Variable-width integers decode to the encoded value and length, or fail',
 "For every chunk width from 2 to 32 and every 64-bit value, reading the value's VBR encoding at any bit position (minimal, or padded with zero chunks within 64 bits of payload) yields that value and consumes exactly the encoding; a signed VBR yields the magnitude in the upper bits with the sign from the lowest bit, and the encoding of minus zero stands for the minimum value. An encoding that runs off the end of the stream, carries more than 64 bits, or has a chunk width outside 2..=32 is an error.",
 ['inputs'],"every chunk width, value, padding, starting bit position, and truncation of the encoding",
 "The tests decode a handful of small values at one or two widths; carries across word boundaries, the last chunk and oversized encodings are never reached.",
 [BC],[('chunk loop and overflow check',BC+': read_vbr'),('sign handling',BC+': read_svbr')],cst,['BitCursor::read_vbr','BitCursor::read_svbr'])
p('C04','32-bit alignment moves exactly to the next 32-bit boundary of the stream',
 "Aligning moves the position to the smallest multiple of 32 bits, counted from the start of the stream, that is not before the current position (or to the end of the stream if that comes first), and is a no-op on a boundary. Whatever reads, seeks or alignments preceded it, reads after it return the bits found at the new position.",
 ['histories','inputs'],"every reachable position and prefetch state, every buffer length including ones that are not multiples of four or eight bytes",
 "The tests align from positions in the first word only; the effect depends on which operations loaded the current word and where it starts.",
 [BC],[('alignment',BC+': align32')],cst,['BitCursor::align32'])
p('C05','A length-limited cursor never sees past its limit',
 "A cursor limited to the first n bytes of a buffer behaves, for every sequence of operations, exactly like an unlimited cursor over a buffer holding only those n bytes: same values, positions, exhaustion and errors, whatever the bytes behind the limit are. A limit larger than the buffer is rejected.",
 ['histories','inputs'],"every buffer, limit, hidden suffix and sequence of operations",
 "One test checks that an oversized limit is rejected; nothing checks that any read, VBR, seek or alignment stays inside the limit.",
 [BC],[('window length',BC+': new_with_len, byte_len'),('bounded word fetch',BC+': load_current_block')],cst,['BitCursor::new_with_len'])
p('B01','Parsing yields exactly the encoded blocks and records, in order',
 "For every well-formed bitstream, parsing yields exactly its blocks (with ID and declared length in bytes), records (code and operands) and block ends, in stream order, and then reports the end of the stream. The yielded codes and operands are the same however the writer encoded a record: unabbreviated or through any abbreviation that can express it.",
 ['inputs','programs'],"every well-formed nesting of blocks and records up to the explored depth, every abbreviation ID width, every encoding choice per record",
 "The repository has no test that parses a bitstream at all (the bitstream crate's test module is empty).",
 [BP,BA,BL,'llvm-bitstream/src/record.rs'],[('entry dispatch',BP+': advance, advance_one'),('block entry and exit',BP+': enter_block, exit_block'),('unabbreviated records',BP+': parse_unabbrev'),('abbreviated records',BP+': parse_with_abbrev')],
 [('scope stack','open blocks with their abbreviation widths',BP+': StreamParser::scopes')],['Bitstream::advance','Iterator for Bitstream'])
p('B02','Abbreviations apply exactly in the blocks they were defined for',
 "An abbreviation defined in a block is usable in that block only, from its definition to the block's end: never in its parent, its children, its siblings or a later block with the same ID. Abbreviations that a BLOCKINFO block registers for a block ID are available in every block with that ID entered afterwards, and in no other; application abbreviation IDs count from 4, registered ones first, each kind in definition order. Definitions and BLOCKINFO contents never show up as entries.",
 ['programs','histories'],"every sequence of block entries and exits, definitions, BLOCKINFO registrations and abbreviated records up to the explored depth",
 "Scoping is a property of the whole history of definitions and block boundaries; no existing test defines an abbreviation inside a stream.",
 [BP],[('scope stack',BP+': Scope, enter_block, exit_block'),('registration',BP+': define_abbrev, parse_unabbrev (SETBID)'),('lookup',BP+': Scope::get_abbrev')],
 [('registered abbreviations','per block ID, from BLOCKINFO',BP+': StreamParser::blockinfo'),('local abbreviations','per open block',BP+': Scope::Block::abbrevs')],['Bitstream::advance'])
p('B03','Abbreviation operands decode to the values they encode',
 "For every abbreviation definition, the parsed definition is the one encoded, and a record written with it decodes to its operands in order: literals take no bits and give their value, fixed-width, variable-width (widths up to 32) and 6-bit character operands give the encoded value, an array gives all its elements, and a blob gives all its bytes, padded to 32 bits on both sides. The first resulting value is the record's code, the rest are its operands. A record names the abbreviation ID it was written with, if any.",
 ['inputs','programs'],"every operand kind, width, boundary value, array and blob length and starting bit position",
 "There is no test for abbreviation definitions or abbreviated records; existing ones stop at the bit cursor.",
 [BA,BP,'llvm-support/src/lib.rs'],[('definition parsing',BA+': Abbrev::new'),('operand decoding',BA+': AbbrevOp::parse'),('6-bit characters','llvm-support/src/lib.rs: CHAR6_ALPHABET')],None,['Abbrev::new','Abbrev::parse','Bitstream::advance'])
p('B04','What a parser yields depends on nothing but the bytes it is given',
 "Opening and advancing a bitstream yields the same wrapper, magic, entries and end whatever other parsers exist, are opened, advanced or dropped in between, in any order, whatever was parsed before, at which address the bytes are, which type owns them, and whether the stream was opened by detecting its kind or by naming it. In particular no definition, registration, abbreviation width or error of one parser has any effect on another.",
 ['schedules','histories'],"every interleaving of the steps of every two streams (and of the first steps of every three) from a set in which the same block and abbreviation IDs mean different things, with one parser dropped at every point; every sequence of three streams; every kind of source at every alignment",
 "Tests run one parser at a time, to the end, over aligned constants; state that outlives or is shared between parsers only shows when their steps interleave.",
 [BP,BL,BC],[('parser state',BP+': StreamParser'),('entry points',BL+': from, from_raw, from_wrapped'),('buffer access',BC)],None,['Bitstream::from','Bitstream::advance'])
p('B05','Malformed bitstreams are rejected, never silently accepted',
 "A bitstream that breaks the format's rules yields an error at the point of the violation instead of an entry or a clean end: a record or definition outside any block, an unmatched block end, an abbreviation ID with no definition in scope, a definition with no operands, an unknown operand encoding, an array or blob in the wrong place, a literal, array or blob as array element, a zero abbreviation width, a BLOCKINFO definition without a selected block ID, or a record cut short. Everything before the violation is still reported as encoded.",
 ['inputs','programs'],"every placement of each kind of violation in every well-formed context up to the explored depth",
 "There are no negative bitstream tests; the number of (context, violation) combinations is far beyond hand-written cases.",
 [BP,BA],[('scope errors',BP+': Scope::get_abbrev, extend_abbrevs, exit_block'),('definition validation',BA+': Abbrev::new'),('width and BLOCKINFO validation',BP+': enter_block, define_abbrev, parse_unabbrev')],None,['Bitstream::advance'])
p('B06','Any bytes can be parsed as a bitstream without crashing or hanging',
 "For every byte sequence, opening it as a bitstream and advancing to the end or the first error finishes without panic, abort, stack overflow or arithmetic overflow. A count or length that the input merely claims never determines how much memory or time is used.",
 ['inputs'],"every byte sequence: all short ones, all one- and two-bit corruptions and truncations of well-formed streams, all claimed lengths and counts at their boundaries",
 "Tests only use benign input; a panic needs one specific malformed field in one specific place.",
 [BP,BA,BL,BC],[('untrusted counts',BP+': parse_unabbrev; '+BA+': AbbrevOp::parse'),('iteration instead of recursion',BP+': advance')],None,['Bitstream::from','Bitstream::advance'])
p('B07','Wrapped and raw bitcode are told apart and parse to the same entries',
 "An input that starts with the wrapper magic yields the wrapper's fields as encoded, and then exactly the entries that the enclosed range (offset and size from the wrapper) yields on its own, whatever surrounds that range; any other input parses as a raw bitstream. The reported magic is the bitstream's own. A wrapper whose range lies outside the input, a truncated wrapper, and a bitstream whose end is not 4-byte aligned are errors.",
 ['inputs','configurations'],"every header size, padding before and after, wrapper field at its boundaries, and enclosed bitstream",
 "No test builds a wrapper.",
 [BL],[('detection',BL+': Bitstream::from'),('wrapper',BL+': from_wrapped'),('container checks',BL+': from_cursor')],None,['Bitstream::from','Bitstream::from_wrapped','Bitstream::from_raw'])
p('B08','A truncated bitstream yields a prefix of the entries and no others',
 "Cutting a well-formed bitstream at any point (keeping whole 32-bit words, as the container requires) makes the parser report a prefix of the original entries and then the end or an error, never a different entry. A bitcode file cut inside a top-level block (other than BLOCKINFO) is rejected; one cut between top-level blocks is rejected or maps to a prefix of the original's modules, each equal to the original (apart from a symbol table that was cut off).",
 ['crash_points','inputs'],"every cut point of every well-formed stream and bitcode file explored",
 "No test truncates anything; the failure depends on which field the cut hits.",
 [BP,BC,U],[('end detection',BP+': advance_one (exhausted)'),('short reads',BC+': read, load_current_block'),('unclosed blocks',U+': enter_block')],None,['Bitstream::advance','Bitcode::try_from'])
p('M01','Top-level blocks are grouped into the modules they belong to',
 "Each module in a bitcode file is made of an identification block, the module block that follows it, the first string table after its identification block and the first symbol table after its identification block, if any, and modules come out in file order. A module block without its own identification, a second module block before the next identification, an identification without a module, a module without a string table, a top-level record, and an unknown top-level block are errors.",
 ['programs'],"every sequence of top-level blocks up to the explored length, with distinguishable contents",
 "There is no test for whole bitcode files; grouping depends on the order of all top-level blocks.",
 [U],[('grouping',U+': TryFrom<Bitstream> for Bitcode'),('completion',U+': PartialBitcodeModule::reify')],[('open modules','modules still waiting for tables',U+': partial_modules')],['Bitcode::try_from'])
p('M02','Strings and blobs in records are decoded exactly or rejected',
 "The producer, epoch, target triple, string table and symbol table of a module are exactly what its records encode, whichever way they are encoded, and are taken from the record with the right code whatever other records surround it. Text that is not valid UTF-8, a character or byte over 255, and a missing or empty required record are errors; an unknown record or block is ignored.",
 ['inputs','programs'],"every record content up to the explored length over boundary characters, every encoding (unabbreviated, array, 6-bit characters, blob), every surrounding record",
 "Two unit tests extract one string and one blob each from a record built in memory; none goes through a bitstream.",
 [U,'llvm-mapper/src/block/identification.rs','llvm-mapper/src/block/strtab.rs','llvm-mapper/src/block/symtab.rs'],[('strings and blobs',U+': Record::try_string, try_blob'),('identification','llvm-mapper/src/block/identification.rs'),('tables','llvm-mapper/src/block/strtab.rs, symtab.rs')],None,['Bitcode::try_from'])
p('M03','String table lookups return exactly the referenced slice or fail',
 "Looking up an offset and a nonzero size returns exactly that slice of the module's string table if it lies inside the table and is valid UTF-8, and fails otherwise, for every 64-bit offset and size. The optional and the fallible lookup always agree, and names of functions, aliases and COMDATs are these slices (a size of zero means that a function or alias is unnamed).",
 ['inputs'],"every table content and length explored, every offset and size including ones near the integer limits",
 "One test looks up a few in-range strings in a single table; boundaries, overflow and multi-byte characters cut in half are not covered.",
 ['llvm-mapper/src/block/strtab.rs'],[('range check','llvm-mapper/src/block/strtab.rs: try_get'),('names','llvm-mapper/src/block/strtab.rs: read_name')],None,['Strtab::get','Strtab::try_get'],hook)
p('M04','The type table resolves every entry to the type its records describe',
 "For every well-formed type table, entry i is exactly the type described by the i-th type-defining record, with all references (backward or forward) resolved by index; names are consumed by the struct or opaque type that follows and by no other. A table with a wrong entry count, a dangling reference, a missing field, an unknown record, a width, address space or component type LLVM does not allow, or an infinitely recursive type is an error.",
 ['programs','inputs'],"every sequence of type records up to the explored length over all record kinds, references and boundary operands",
 "No test maps a type table; resolution order, name handling and error cases depend on the whole record sequence.",
 [TT,TY],[('record decoding',TT+': TryFrom<&Block> for TypeTable'),('resolution',TT+': PartialTypeTable::reify, PartialType::resolve'),('validity',TY+': Type constructors')],[('pending name','name for the next struct',TT+': last_type_name')],['Bitcode::try_from (accept/reject)','hook: mapped type table'],hook)
p('M05','Attribute groups and lists decode to exactly the encoded attributes',
 "Each attribute group decodes to its ID, its target (return value, parameter or function) and its attributes in order, with integer and string arguments as LLVM defines them (alignments in bytes, min/max and optional arguments unpacked); each attribute list refers to exactly the groups it names, in order. Malformed groups (unknown kinds or IDs, an ID of the wrong kind, truncated, unterminated or non-UTF-8 text, fewer than one attribute, an invalid alignment) and lists naming unknown groups are errors.",
 ['inputs','programs'],"every attribute ID and kind, boundary arguments, every sequence of attributes in a group and of groups in a list up to the explored length",
 "Existing tests convert only a couple of IDs; groups and lists are never decoded.",
 [AT,'llvm-support/src/attribute.rs','llvm-support/src/bitcodes.rs'],[('group decoding',AT+': AttributeGroups, Attribute::from_record'),('integer attributes',AT+': IntAttribute::try_from'),('lists',AT+': Attributes')],None,['IntAttribute::try_from','EnumAttribute::try_from','hook: mapped attributes'],hook)
p('M06','Function records decode to exactly the encoded properties',
 "For every function record, the mapped function has the name, function type, calling convention, linkage, attribute list, alignment, section, visibility, garbage collector, unnamed_addr and DLL storage class that its fields encode, with absent trailing fields taking LLVM's defaults, and indices into attribute lists, sections and collectors counted from one with zero meaning none. A record that is too short, is not in the string-table format, or names a type that is not a function, an unknown calling convention, visibility or storage class, an invalid alignment, or an index out of range is an error.",
 ['inputs'],"every field at its boundary values, every record length, pairs of fields, and every table size they index into",
 "No test maps a function record.",
 ['llvm-mapper/src/record/function.rs','llvm-support/src/lib.rs'],[('decoding','llvm-mapper/src/record/function.rs: try_map'),('code tables','llvm-support/src/lib.rs')],None,['Bitcode::try_from (accept/reject)','hook: mapped functions'],hook)
p('M07','Alias records decode to exactly the encoded properties',
 "For every alias record, the mapped alias has the name, type, aliasee, linkage, visibility, DLL storage class, thread-local mode, unnamed_addr and preemption that its fields encode, with absent trailing fields taking LLVM's defaults. A record that is too short, is not in the string-table format, or names an unknown type, visibility or storage class is an error.",
 ['inputs'],"every field at its boundary values, every record length, and pairs of fields",
 "No test maps an alias record.",
 ['llvm-mapper/src/record/alias.rs','llvm-support/src/lib.rs'],[('decoding','llvm-mapper/src/record/alias.rs: try_map'),('code tables','llvm-support/src/lib.rs')],None,['Bitcode::try_from (accept/reject)','hook: mapped aliases'],hook)
p('M08','COMDAT records decode to exactly the encoded name and selection kind',
 "The module's COMDAT list has one entry per record, in order, each with the name its string table reference denotes and LLVM's selection kind for its code (1 any, 2 exact match, 3 largest, 4 no deduplicate, 5 same size). A record of another length, with an unknown kind or a bad reference, or in the pre-string-table format is an error.",
 ['inputs','programs'],"every selection code at its boundaries, record length, reference and list of up to the explored number of records",
 "No test maps a COMDAT record.",
 ['llvm-mapper/src/record/comdat.rs'],[('decoding','llvm-mapper/src/record/comdat.rs: try_map')],None,['Bitcode::try_from (accept/reject)','hook: mapped COMDATs'],hook)
p('M09','Data layout strings parse to what LLVM defines',
 "Every well-formed data layout string (a dash-separated list of specifications) parses to LLVM's defaults overridden by each specification in turn, a later one replacing an earlier one for the same thing, without any effect on anything else. Unknown, empty or malformed specifications, non-ASCII text, out-of-range numbers, alignments that are not powers of two, preferred alignments below the required one, and address space 0 declared non-integral are errors, as is a module whose data layout is malformed.",
 ['inputs','programs'],"every sequence of specifications up to the explored length over all kinds and boundary numbers, every short string over the alphabet",
 "The tests parse one specification at a time; precedence between several, number boundaries and most malformed forms are not covered.",
 ['llvm-mapper/src/record/datalayout.rs',AL],[('parsing','llvm-mapper/src/record/datalayout.rs: FromStr for DataLayout'),('alignment specifications',AL+': FromStr impls, update')],None,['DataLayout::from_str','Bitcode::try_from'],hook)
p('M10','Module-level records map to exactly the encoded module properties',
 "A module has the version (names are in a string table from version 2 on, operands are relative from version 1 on), target triple (the host's if absent), inline assembly (split into lines), dependent libraries, section names and garbage collector names that its records encode, lists in record order, whatever other records and blocks come between. A missing or repeated version, type table or symbol table block, a repeated triple, assembly, data layout or attribute block, and a malformed string are errors.",
 ['programs','inputs'],"every sequence of module-level records and blocks up to the explored length, including repetitions and omissions",
 "No test maps a module block.",
 [MOD,U],[('module mapping',MOD+': TryFrom for Module'),('consistency',U+': exactly_one, one_or_none, by_code')],None,['Bitcode::try_from','hook: mapping context'],hook)
p('M11','Any bytes can be mapped as bitcode without crashing or hanging',
 "For every byte sequence, mapping it as a bitcode file returns a result or an error: no panic, abort, stack overflow or arithmetic overflow, and no count or length that the input merely claims determines how much memory or time is used. This includes every value of every record field, every record length and every nesting of blocks.",
 ['inputs'],"every value at its boundaries in every field of every record kind, every record length, all one-bit corruptions and truncations of valid files, deep nesting",
 "No test maps bitcode at all; a panic needs one specific malformed field in one specific record.",
 [U,MOD,TT,AT,'llvm-mapper/src/record/mod.rs'],[('unrolling',U+': enter_block'),('mapping',MOD)],None,['Bitcode::try_from'])
p('M12','Mapping does not depend on how the bitstream writer encoded the file',
 "Two bitcode files that contain the same blocks and records map to the same result, or are both rejected, even if they differ in abbreviation widths, in which records are abbreviated and how, in BLOCKINFO blocks, in block and record kinds unknown to the mapper, or in being wrapped.",
 ['programs','configurations'],"every combination of encoding choices per block and record kind explored, on files that exercise every part of the mapped model",
 "Only whole-file comparisons between equivalent encodings can show it; no test maps a file.",
 [U,BP,BA,MOD],[('encoding-agnostic fields',BA+': AbbrevOp::parse'),('unrolling',U)],None,['Bitcode::try_from','hook: mapping context'],hook)
p('M13','Modules in one file are mapped independently of each other',
 "A file with several modules maps to exactly what its modules, each with the string and symbol table that belong to it, map to on their own, in order, or is rejected if one of them is rejected on its own: no type, attribute, section, name, property or default of one module has any effect on another. What was mapped before has no effect on what is mapped afterwards: the same bytes always map to the same result.",
 ['histories','programs'],"every ordered pair and triple of files from a set in which every kind of record and block occurs, is missing, or refers to something that only another module has",
 "No test maps more than one module; state that leaks from one module to the next is invisible in every file with a single module.",
 [U,MOD,'llvm-mapper/src/map.rs'],[('one mapping context per module',U+': PartialBitcodeModule::reify'),('context','llvm-mapper/src/map.rs: PartialMapCtx')],None,['Bitcode::try_from','hook: mapping context'],hook)
p('M14','Function bodies are never silently dropped',
 "A mapped module has no representation of function bodies, so a file in which any module has a function block is rejected, whatever the block contains (no record at all, only a block count, any instructions, metadata or nested blocks), wherever in the module it is, whether or not the module declares a function that it could belong to, and however it is encoded. The same file without its function blocks maps.",
 ['programs','inputs'],"every body of up to the explored number of parts (supported and unsupported instructions, nested blocks), every record code with boundary operands, and every place in every file, in every encoding style",
 "No test maps a function block, and a body that is skipped leaves a module that looks complete.",
 [MOD,'llvm-mapper/src/block/function/mod.rs',U],[('function blocks','llvm-mapper/src/block/function/mod.rs: TryFrom for Function'),('collection',MOD+': TryFrom for Module')],None,['Bitcode::try_from'])
p('M15','The order of unlike parts of a module has no effect on what it maps to',
 "Writers of different LLVM versions emit the parts of a module in different orders. A module maps to the same result, or is rejected all the same, whatever the order of its records and blocks of different kinds: a version, data layout, section name, collector name, COMDAT, type table, attribute block, function or alias takes effect on the whole module, not only on what follows it. Only the order among parts of the same kind is significant.",
 ['programs'],"every move of every part of every file from a set in which every kind of part occurs, every order of up to the explored number of kinds and every choice of three kinds at either end, and every merge of every two kinds",
 "No test maps a module; a dependency on the order shows only in files whose order differs from the usual one.",
 [MOD,U,'llvm-mapper/src/map.rs'],[('records and blocks by kind',U+': Records, Blocks'),('module mapping',MOD+': TryFrom for Module')],None,['Bitcode::try_from','hook: mapping context'],hook)
p('S01','Alignments convert losslessly between their representations',
 "An alignment built from a shift, a byte alignment or a bit alignment reports that same alignment in every representation that can express it, orders by size, and prints its byte alignment. Shifts over 63, byte or bit alignments that are not powers of two, and bit alignments that are not whole bytes are rejected; an encoded optional alignment of 0 means none and n means the shift n-1.",
 ['inputs'],"all 256 shifts, all powers of two with their neighbours and multiples, all small values exhaustively",
 "The tests check a few constants.",
 [AL],[('constructors',AL+': Align::from_shift, from_byte_align, from_bit_align'),('optional alignment',AL+': MaybeAlign')],None,['Align','MaybeAlign'])
p('S02','Types can only be built from components that LLVM allows',
 "Building a pointer, array, struct, vector (fixed or scalable) or function type succeeds exactly if LLVM allows the component types in that place, and the result then holds exactly those components; two types are equal exactly if they have the same structure. The predicates on types agree with the constructors, and floating-point and integer classification looks through vectors and nothing else.",
 ['inputs','programs'],"every type built by at most the explored number of constructor applications over all primitive types",
 "Doc tests check a few pairs of (constructor, component type).",
 [TY],[('constructors and predicates',TY)],None,['Type::new_*','Type::is_*'])
p('S03','Alignment specification lists stay sorted, unique and up to date',
 "Starting from the defaults, after any sequence of updates the list of type (or pointer) alignment specifications holds exactly one specification per type (or address space), sorted, and each is the last one given for it or the default. Updates never change any other entry.",
 ['histories'],"every sequence of updates up to the explored length over all kinds of types and several widths, address spaces and alignments",
 "One test checks that the default list is sorted; no test performs a sequence of updates and looks at the whole list.",
 [AL],[('sorted update',AL+': TypeAlignSpecs::update, PointerAlignSpecs::update'),('order',AL+': Ord impls')],[('specifications','sorted list',AL+': TypeAlignSpecs, PointerAlignSpecs')],['TypeAlignSpecs','PointerAlignSpecs'])
p('S04','Numeric codes decode to the LLVM entity with that code and nothing else',
 "For every 64-bit code, decoding it as a block ID, record code, attribute ID or kind, abbreviation encoding, opcode, linkage, visibility, storage class, thread-local mode, unnamed_addr, preemption or calling convention gives the entity LLVM assigns to it. Unassigned codes are rejected, or fall back to the documented default where LLVM does so.",
 ['inputs'],"all codes up to well past the largest assigned one, and all powers of two with their neighbours up to 2^64-1",
 "Only block IDs are spot-checked.",
 ['llvm-support/src/bitcodes.rs','llvm-support/src/attribute.rs','llvm-support/src/lib.rs','llvm-mapper/src/block/mod.rs'],[('enumerations','llvm-support/src/bitcodes.rs'),('lenient decoding','llvm-support/src/lib.rs: From<u64> impls'),('block IDs','llvm-mapper/src/block/mod.rs: From<u64> for BlockId')],None,['TryFrom<u64>/From<u64> of the public enumerations'])
p('S05','Binary and unary opcodes decode according to the operand type',
 "An opcode applied to an integer type or vector of integers decodes to LLVM's integer operation, and applied to a floating-point type or vector of floating-point decodes to LLVM's floating-point operation. Operations that do not exist for floating point, other operand types and unknown opcodes are rejected.",
 ['inputs'],"every opcode up to past the largest and at integer boundaries, times every kind of type",
 "No test decodes an opcode.",
 ['llvm-support/src/opcode.rs','llvm-support/src/bitcodes.rs'],[('decoding','llvm-support/src/opcode.rs: TryFrom<(u64, &Type)> for BinaryOp')],None,['BinaryOp::try_from','UnaryOp::try_from'])
p('S06','Alignment specification strings parse to exactly what they say, or fail',
 "A type alignment specification (i, v, f with a width, or a) or pointer alignment specification (p with an optional address space) parses to exactly the type, sizes and alignments written, with omitted preferred alignments and index sizes taking the defaults LLVM defines. Empty, incomplete, non-numeric, unknown, or out-of-range text, alignments that are not powers of two and preferred alignments below the required one are errors, never panics.",
 ['inputs'],"every string over the relevant alphabet up to the explored length, and every combination of boundary numbers",
 "The tests parse around a dozen fixed strings.",
 [AL],[('type specifications',AL+': FromStr for TypeAlignSpec'),('pointer specifications',AL+': FromStr for PointerAlignSpec')],None,['TypeAlignSpec::from_str','PointerAlignSpec::from_str'])
p('S07','Width and address space limits hold at construction',
 "Integer types have widths from 1 to 2^24-1 bits and round their width up to bytes correctly; aligned type widths lie between 1 and 2^23-1 bits; address spaces lie below 2^23; anything else is rejected whatever the source integer type. Type alignment specifications reject preferred alignments below the required one and alignments above their maximum.",
 ['inputs'],"all values around every limit and power of two, all small values, every pair of alignments",
 "The tests check one or two values on either side of one limit.",
 [AL,TY],[('widths',AL+': AlignedTypeWidth; '+TY+': IntegerType'),('address spaces',AL+': AddressSpace'),('specifications',AL+': TypeAlignSpec::new, PointerAlignSpec::new')],None,['IntegerType','AlignedTypeWidth','AddressSpace','TypeAlignSpec::new','PointerAlignSpec::new'])
import os
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w').write(''.join(json.dumps(d)+'\n' for d in P))
print(len(P))

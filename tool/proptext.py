# -*- coding: utf-8 -*-
"""The properties: text, anchors, technique."""
PROPS = []
NOT_APPLICABLE = []


def prop(id, title, statement, over, quant, why, files, mech, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      technique=technique, note=note))


def na(id, title, statement, over, quant, why, files, mech, reason):
    NOT_APPLICABLE.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, reason=reason))


T = 'src/tool1cd/'
prop('P01', 'A database opened read-only is never modified',
     'A database file opened without exclusive access is never written to, whatever is asked of the library afterwards, and is opened for reading only. '
     'The database is modifiable only when it was opened exclusively, and never in the formats 8.0.3 and 8.0.5, which the library does not write. '
     'The command line tool asks for exclusive access exactly when the non-exclusive option was not given.',
     ['inputs', 'histories', 'programs'], 'every database version, access mode and sequence of library calls after opening',
     'Tests open a few fixtures and compare what they read; that no call sequence writes is a statement about all of them.',
     [T + 'Class_1CD.cpp', T + 'MemBlock.cpp', T + 'SystemClasses/TFileStream.cpp', 'src/ctool1cd/App.cpp'],
     [('read-only gate', 'T_1CD::get_block_for_write'), ('access mode by version', 'T_1CD::open'), ('page cache', 'MemBlockManager, MemBlock')],
     'dominance of the read-only test over all write effects, who-may-call rules, disjunctive constant propagation of the access mode',
     'All call sites of the analysed program; the standard library is trusted to honour open modes.')
prop('P02', 'A completed modification is in the file',
     'When an operation that modifies the database returns normally, every page it changed was written back, whole and to its own place, to the database file. '
     'A changed page is never dropped from the cache unwritten, and changes are made only to pages that were obtained for writing.',
     ['histories', 'inputs'], 'every modifying library operation, every path to a normal return, every cached page',
     'Tests never read the file back after a modification, and a lost page shows only for particular cache states.',
     [T + 'MemBlock.cpp', T + 'Class_1CD.cpp', T + 'Table.cpp', T + 'V8Object.cpp'],
     [('write back', 'MemBlockManager::flush, MemBlock::write'), ('completion', 'flush at the end of create_table, delete_table, import_table, end_edit')],
     'must-pass-through path analysis to the write-back, typestate of the changed mark, provenance of stores',
     'Durability up to the write call of the stream; fsync and torn pages are outside.')
prop('P03', 'Page numbers are checked against the size of the database',
     'A page number taken from the database reaches the page cache only after it was compared with the length of the database in pages, for reading strictly below it and for writing at most equal to it. '
     'Writing the page just behind the end makes the database exactly one page longer in the file, in memory and in the header, and new pages start zeroed. '
     'No more than one page is copied out of a page.',
     ['inputs'], 'every page number in a damaged or hostile file, every growth step',
     'Fixtures are intact, so no test uses a page number outside the file.',
     [T + 'Class_1CD.cpp', T + 'MemBlock.cpp'],
     [('range check', 'T_1CD::get_block'), ('growth', 'T_1CD::get_block_for_write'), ('cache index', 'MemBlockManager::get_block')],
     'forward dataflow of linear inequalities over SSA values and fields',
     'Wrap-around of 32-bit page numbers is not modelled.')
prop('P04', 'Reading and writing a range of an object touches exactly that range',
     'Reading or writing a byte range of an object moves exactly the bytes of the range, each from or to the page and offset that hold it in the layout of the format, for every page size; it never touches bytes of a page outside the range and always moves the whole range. '
     'A range that does not end within the object is refused when reading, with and without cached contents, and a table of pages is read from a header only as far as the header page reaches. '
     'All the ways of reading and writing an object, and the file position computed for a byte of it, agree on where its bytes are.',
     ['inputs'], 'all offsets and lengths, all page sizes, one- and two-level page tables, old and new formats',
     'Tests read small objects from the start; ranges that straddle pages or page tables and other page sizes are not reached.',
     [T + 'V8Object.cpp'],
     [('range transfer', 'V8Object::get_data, V8Object::set_data'), ('page tables', 'V8Object::init'), ('file position', 'V8Object::get_fileoffset')],
     'Karr affine relations with inequalities, partitioned by case, per page size',
     'Each of the five page sizes is a constant of the analysis; allocation pages before 8.3.8 are taken to be full, as the format requires; 32-bit wrap-around is not modelled.')
prop('P05', 'A BLOB value is read from its own chain of blocks, completely and boundedly',
     'A BLOB value is collected from the chain of 256-byte blocks that starts at its first block: each block is read from its own place, contributes exactly the data bytes it announces (at most 250), and names the next one. '
     'A block number outside the BLOB file, an impossible block, a cyclic chain, a BLOB file of a broken length, a missing first block and a missing BLOB file are refused, and reading a chain always ends. '
     'A value never overruns a buffer of its announced length, and one whose chain has another length is reported or refused.',
     ['inputs'], 'every BLOB file contents, first block and announced length',
     'Fixtures hold intact chains; cycles, overlong blocks and numbers beyond the file do not occur in them.',
     [T + 'Table.cpp', T + 'V8Object.cpp', T + 'FieldType.cpp', T + 'TableRecord.cpp'],
     [('chain walk into a stream', 'Table::readBlob, V8Object::readBlob'), ('chain walk into a buffer', 'Table::readBlob'), ('first block and length of a value', 'callers of Table::readBlob')],
     'forward dataflow of linear inequalities and affine relations over the chain loop, ranking argument for termination, path queries for the refusals',
     'The file is taken not to change while a chain is read.')
prop('P06', 'What is saved from a configuration repository is the requested version',
     'Saving a version of a repository saves each object in the state of its newest record not newer than that version which carries data, without the objects removed by then, and the files it has from records not newer either; a version counted back from the last one never lies before the first. '
     'A partial export compares, object by object, the newest record before the range with the newest inside it and leaves an object out only when its data are equal. '
     'A snapshot counts only when the checksum of what was saved from it matches, packed data only when their whole hash matches, columns that only newer repositories have are not asked for in older ones, and an object whose data cannot be found ends the export with an error.',
     ['inputs', 'histories'], 'every repository history, repository version, requested version or range, and state of packs and snapshots',
     'The fixtures have a handful of versions of unpacked data; ranges, removals, damaged snapshots and missing data do not occur in them.',
     [T + 'save_depot_config.cpp', T + 'save_part_depot_config.cpp', T + 'Packdata.cpp', T + 'PackDirectory.cpp', T + 'CRC32.cpp', T + 'Class_1CD.cpp'],
     [('full export', 'T_1CD::save_depot_config'), ('partial export', 'T_1CD::save_part_depot_config'), ('snapshot', 'T_1CD::try_save_snapshot'), ('packed data', 'Packdata::get_data'), ('version numbers', 'T_1CD::get_ver_depot_config, T_1CD::get_depot_version')],
     'typestate and path enumeration over the export loops on source-level terms (record, column), dominance of checksum and hash comparisons',
     'The order of records in the primary index and the CRC of boost are trusted; the container the objects are saved to is P17.')
prop('P07', 'Errors reach the exit code of the command line tool',
     'Once an error was reported, by the tool or by the library, at any verbosity and log setting, the tool ends with a non-zero exit code. '
     'An exception thrown by a command, of whatever type, is reported as an error and does not keep the commands after it from being executed; a database that cannot be opened ends the tool with an error code and without executing commands. '
     'A command that returns without doing anything, or whose operation signals failure by its result, reports an error, and a failure to create an output file is never dropped.',
     ['inputs', 'programs'], 'every command line, database, failing operation and kind of exception',
     'No test runs the tool with failing commands, and which failures are silent depends on paths no fixture takes.',
     ['src/ctool1cd/App.cpp', 'src/ctool1cd/cTool_1CD_Main.cpp', T + 'Messenger.cpp', T + 'MessageRegistration.cpp', T + 'DetailedException.cpp', T + 'Common.cpp'],
     [('memory of errors', 'Messenger::AddDetailedMessage'), ('exit code', 'main, App::Run'), ('commands', 'App::save_config and the other commands'), ('handlers', 'catch clauses of the library')],
     'must-pass-through path analysis from failure to report, exception landing-pad analysis, who-may-reset rules',
     'Warnings are not errors; a command over an empty set of tables counts as done.')
prop('P08', 'Streams keep their place, end at their end and report failures',
     'Reading a stream delivers the bytes from its position on, as many as were asked for or are left, and moves the position by as many; writing stores the whole buffer at the position and moves it behind what was written. '
     'A seek to a place outside the stream is refused and leaves the position alone (a stream over a file in a container is moved to its nearest end instead), a failed read or write, a file that cannot be opened and a page cut off by the end of the database file are exceptions, and copying moves only bytes that could be read. '
     'Only creating a file empties it: opening, closing and reopening keep contents and position, and a stream that is shortened is shortened in the file.',
     ['inputs', 'histories', 'programs'], 'every sequence of stream operations, every kind of stream, every file mode, short and failed transfers',
     'Tests read small intact files from start to end; ends in the middle of a transfer, failed writes and reopening do not occur.',
     [T + 'SystemClasses/TStream.cpp', T + 'SystemClasses/TMemoryStream.cpp', T + 'SystemClasses/TFileStream.cpp', T + 'cfapi/TV8FileStream.cpp', T + 'cfapi/V8File.cpp', T + 'MemBlock.cpp'],
     [('file stream', 'TWrapperStream::Read, TWrapperStream::Write'), ('memory stream', 'TMemoryStream::Read, TMemoryStream::Write'), ('positions', 'TStream::Seek, TV8FileStream::Seek'), ('copying', 'TStream::CopyFrom'), ('opening and closing', 'TFileStream')],
     'forward dataflow of affine relations between old and new position, size and amounts; must-pass path queries for failures; disjunctive constant propagation of open modes',
     'The standard streams are trusted to report their failures; files are not changed by others meanwhile.')

prop('P09', 'The command line does what its help describes',
     'Every key of the help text, in its short and its long form and in any letter case, takes the documented number of arguments in the documented order, starts the operation the help describes (and no other) with the path, list or version given with it, and an unknown key, a missing argument and a second database name are reported as errors. '
     'Options take effect before the database is opened wherever they stand; a repository version that is not a whole number is refused, and a range of versions is split at its colon into the first and the last one. '
     'A list of tables selects, among all tables of the database, exactly those whose whole name matches one of its patterns regardless of letter case, with the wildcards * and ?, the patterns being separated by spaces, tabs, commas or semicolons.',
     ['inputs'], 'every command line: keys, their order and letter case, arguments, lists of tables, versions and ranges',
     'No test runs the tool with more than a few keys; swapped arguments, options behind commands, lists and ranges do not occur in them.',
     ['src/ctool1cd/ParseCommandLine.cpp', 'src/ctool1cd/ParseCommandLine.h', 'src/ctool1cd/App.cpp', 'src/ctool1cd/App.h'],
     [('table of keys and help text', 'CommandParse::definitions, CommandParse::helpstring'), ('analysis of the arguments', 'CommandParse::CommandParse'), ('options and operations', 'App::Run'), ('lists of tables', 'App::export_to_xml, App::export_to_binary, App::import_from_binary')],
     'cross-check of the constant table of keys with the help text, reachability per command over the call graph, slices from operation arguments to command parameters, path enumeration of table selection, constant evaluation of the replacements',
     'boost::regex is trusted; table names consist of letters, digits and underscores; -q has no effect by design of the console tool.')

prop('P10', 'The columns of a table are understood as its description declares them',
     'Each type letter of a table description is understood as its type, the NULL mark, length, precision and case mark are taken from their places, and any other text there is refused. '
     'A value takes the bytes its type and length call for, one more if its column is nullable; in a record the columns follow each other without gap or overlap behind the removal mark, the version (also the hidden one of a table with record locks) before the others, and record n begins at n times the record length. '
     'A value is NULL exactly if its column is nullable and its mark is zero, any other value is read from behind the mark, every type has a presentation of its own, and a logical value is true exactly if its byte is not zero.',
     ['inputs'], 'every table description (types, marks, lengths, record locks) and every record',
     'The fixtures have few of the types and lengths; hidden versions, variable binary columns, odd marks and broken descriptions do not occur in them.',
     [T + 'FieldType.cpp', T + 'Field.cpp', T + 'TableRecord.cpp', T + 'TableRecord.h', T + 'Table.cpp'],
     [('description of a column', 'field_type_declaration::parse_tree, Field::field_from_tree'), ('sizes', 'CommonFieldType::get_size, Field::get_size'), ('choice of the code for a type', 'FieldType::create_type_manager'), ('NULL', 'TableRecord::is_null_value, TableRecord::get_data, Field::get_presentation'), ('record layout', 'Table::init')],
     'disjunctive constant propagation (type letters, marks, sizes, classes), path enumeration with type and NULL conditions, affine comparison of addresses',
     'How a decimal number, a date or a text is written out is not decided here; record editing is not reachable from the tool.')

prop('P11', 'Every record of a table is exported once, in the order of its index',
     'Exporting a table writes each record that is not removed: in the order of the primary index where the table has one, in storage order otherwise; an iteration over a table stops at the same records, from the first to the last. '
     'An index is followed from its root over the first entry of every branch page to the leftmost leaf and along the chain of leaves up to the end mark, taking the record number of every entry; page numbers count pages since format 8.3.8 and bytes before. '
     'A damaged index, whose pages run in a circle, whose entries do not fit their page, which starts outside its file or names records the table does not have, is refused with an error.',
     ['inputs'], 'every table, with or without indexes, of both formats, and every contents of its index file',
     'The fixtures hold small intact indexes of one or two levels; no test exports a table or reads a damaged index.',
     [T + 'Index.cpp', T + 'Table.cpp', T + 'TableIterator.cpp', 'src/ctool1cd/App.cpp'],
     [('reading an index', 'Index::create_recordsindex'), ('starts of the indexes', 'Table::init'), ('list of records', 'Table::fill_records_index'), ('export', 'Table::export_to_xml, App::export_all_to_xml'), ('iterators', 'TableIterator, IndexedTableIterator')],
     'path enumeration from page read to page read with page-typed addresses, linear inequalities for page bounds, ranking argument, must-pass-through queries, loop-shape analysis of the scans',
     'That the entries of an intact index are sorted is not decided; editing of indexes is not reachable from the tool.')

prop('P12', 'The XML export is well-formed and tells each value under its column',
     'Exporting a table writes a well-formed XML document: every element opened is closed, each column is described with its own name, type, length, precision and NULL mark, and each record holds one element per column, named like the column and holding its value. '
     'A NULL value is written as an empty-element tag and a value that is not NULL between a start and an end tag, with each of the characters & < > \' " of its text replaced by its entity. '
     'An image is written as the base64 of all its bytes, in whole lines and with padding, or, where images go to files, as the name of its file.',
     ['inputs'], 'every table, every contents of its records, with and without blob files',
     'No test exports a table; NULL values, special characters, images and tables without records do not occur in the tests.',
     [T + 'Table.cpp', T + 'Common.cpp', T + 'FieldType.cpp', T + 'Base64.cpp', T + 'SystemClasses/System.SysUtils.cpp'],
     [('the document', 'Table::export_to_xml'), ('escaping', 'toXML, StringReplace'), ('texts of values', 'CommonFieldType::get_XML_presentation'), ('images', 'base64_encode')],
     'typestate analysis: an XML reader run over the text pieces written on every path (constant propagation of string contents); bit provenance for base64',
     'Names of tables and columns are taken to be free of special characters; control characters have no form in XML 1.0 and are not decided; how a number or date is written is not decided here.')

prop('P13', 'Compression loses nothing and broken compressed data is noticed',
     'Compressing takes the whole source, writes everything the compressor produces and finishes the stream; decompressing writes everything up to the end of the stream; both use the raw deflate format, so that either undoes the other whatever the size of the data. '
     'Compressed data that is damaged, ends too early or needs a dictionary is refused with an error, never taken for the whole. '
     'Where data may be stored either way, data that cannot be decompressed is taken exactly as it is stored, without a remainder of the attempt.',
     ['inputs'], 'every length and contents of the data, every point of damage or truncation',
     'The fixtures hold small intact streams; outputs that fill the buffer exactly, truncated or damaged streams and mixed storage do not occur in them.',
     [T + 'UZLib.cpp', T + 'cfapi/V8Catalog.cpp', T + 'TableRecord.cpp', T + 'Field.cpp', T + 'Class_1CD.cpp', T + 'ConfigStorage.cpp'],
     [('both directions', 'ZDeflateStream, ZInflateStream'), ('data stored either way', 'ZInflateOrCopy, TableRecord::try_store_blob_data, Field::save_blob_to_file, T_1CD::recursive_test_stream_format'), ('containers', 'V8Catalog::read_datablock, V8Catalog::write_datablock')],
     'disjunctive constant propagation of the two functions against the abstract protocol of the library (all outcomes of a call); forward analysis of the failed attempts; must-pass-through queries for stream positions',
     'zlib itself is trusted to behave as documented.')

prop('P14', 'Nothing is deleted or emptied but what the run writes anew',
     'The tool deletes only the file a command is about to write anew and the log file given on the command line, never a directory of that name with its contents; with its contents it deletes only its temporary directory, which every run creates for itself below the temporary directory of the system, under a name no other run has and with a name of its own for every temporary file. '
     'A container file that exists is opened without emptying it. '
     'Files that are only read - pack files, external objects, snapshots, the files of a table to import - are opened for reading only.',
     ['inputs', 'environment'], 'every command, every file or directory already present at the output path, any number of runs at the same time',
     'Tests start from a clean output directory, one after another; existing files, directories at the output path and simultaneous runs do not occur.',
     [T + 'TempStream.cpp', T + 'Messenger.cpp', T + 'ConfigStorage.cpp', T + 'save_depot_config.cpp', T + 'cfapi/V8Catalog.cpp', T + 'PackDirectory.cpp', T + 'Packdata.cpp', T + 'Table.cpp'],
     [('old output file', 'ConfigStorageTable::save_config, T_1CD::save_depot_config'), ('temporary directory', 'DelayedInitTempPath, TTempStream'), ('log file', 'Messenger::setlogfile'), ('containers', 'V8Catalog::V8Catalog, V8Catalog::HalfOpen'), ('inputs', 'PackDirectory::get_data, Packdata, Table::import_table')],
     'enumeration of every deleting or emptying call with path-expression dataflow resolved through callers, must-be-rewritten path queries, flow of file streams to writes',
     'A file the user names as the output of a command is the one replaced, whatever it is.')

prop('P15', 'All output lies at the path given for it; names from the data do not lead out',
     'Everything a command writes - configurations, tables, blobs, parts of objects, lost objects, the log - lies at the path its user gave for it or below it, a relative one being taken from the current directory, or in the temporary directory of the run; never beside the base or in another place. '
     'Names taken from the data, of tables, objects, suppliers, records and of files in containers, form one component of a path each, in which every separator is replaced and which is neither . nor .., so that they cannot lead out of it.',
     ['inputs'], 'every command line, every name that a base or a container can hold',
     'The fixtures hold harmless names and the tests use absolute output paths; a separator or .. in a name, relative paths and foreign working directories do not occur.',
     ['src/ctool1cd/App.cpp', T + 'Common.cpp', T + 'cfapi/V8Catalog.cpp', T + 'save_part_depot_config.cpp', T + 'save_depot_config.cpp', T + 'Table.cpp', T + 'Class_1CD.cpp'],
     [('output paths', 'App, T_1CD::save_depot_config, T_1CD::save_part_depot_config'), ('names from the data', 'safe_file_name, V8Catalog::SaveToDir, Table::export_table, Table::export_to_xml'), ('temporary files', 'TTempStream')],
     'path-expression dataflow from every writing call back through all callers to the command line (base) with a taint rule for the components; path and loop analysis of the sanitiser',
     'Two names that differ only in replaced characters give the same file.')

prop('P24', 'Positions and lengths beyond 4 GiB are not cut off',
     'A position or length in the base, or in the file of a table, of its blobs or of its indexes, is computed, held, compared, passed and returned in 64 bits, so that reading, writing, exporting and checking work beyond 4 GiB as they do before it. '
     'The only such lengths held in 32 bits are those of the list of tables and of the list of free pages, and fields that the format of the base itself stores in 32 bits.',
     ['inputs'], 'every base, table, blob file and index file up to the largest the formats allow',
     'The largest fixture has a few megabytes; a product of a page or record number and a size that passes 32 bits occurs in no test, and a base that would show it does not fit into a test suite.',
     [T + 'Table.cpp', T + 'V8Object.cpp', T + 'Index.cpp', T + 'MemBlock.cpp', T + 'Class_1CD.cpp', 'src/ctool1cd/App.cpp'],
     [('pages of the base', 'MemBlock::create, MemBlock::write, T_1CD::open'), ('files of a table', 'V8Object::get_data, V8Object::set_data, V8Object::set_len, V8Object::get_fileoffset'), ('records, blobs, index pages', 'Table::get_record, Table::readBlob, Index')],
     'width analysis over the IR: interval bounds of every 32-bit operation that is widened into a position, and of every 64-bit length that is truncated',
     'Page and record numbers have 32 bits in the formats; positions inside a container (cf, epf) have 32 bits and are left out.')

prop('P19', 'Only a sound header is taken for a database or for an object',
     'A file is taken for a database only if its header of 24 bytes is whole and carries the signature, one of the six known format versions and a possible page size (a power of two from 4 to 64 KiB in format 8.3.8, the others have 4 KiB), and if the file consists of exactly as many whole pages as the header says; every other file is refused with an error before one of its pages is used. '
     'A page is taken for the header of an object only if it carries the signature of its kind - data or list of free pages, old or new format - and can list as many pages as the length in it needs. '
     'The list of tables is read only if it lies wholly within the object that holds it; otherwise opening fails with an error.',
     ['inputs'], 'every file, every value of every header field, all six formats and all page sizes',
     'The fixtures are sound databases of two formats; a damaged or foreign header in each of its bytes and at each limit is not among them.',
     [T + 'Class_1CD.cpp', T + 'Class_1CD.h', T + 'V8Object.cpp'],
     [('header of the file', 'T_1CD::open, v8con'), ('header of an object', 'V8Object::init'), ('list of tables', 'T_1CD::open')],
     'disjunctive constant propagation over opening and object headers, one table row per kind of damage and per limit, against the table of the format',
     'Sound headers must be accepted, too: the table is read in both directions.')

prop('P20', 'What is missing from the data is never used as if it were there',
     'Whatever a base, container, pack file or description text lacks - a file or a part of a container, an object of a pack file, a table of a base or the blobs of a table, a field that an index names, an element of a description in braces - is used only where it was found; otherwise the tool reports an error or goes on without it, and never follows a null pointer or looks behind the end of a collection. '
     'A description of a table, field, type, index or extension with fewer elements than it needs is thus refused or left out at whatever place it ends.',
     ['inputs'], 'every file and element that can be missing, in every place where it is looked up or taken, with any number of elements',
     'The fixtures are complete; a missing file, table, blob or element at each of the places that use one occurs in no test.',
     [T + 'ConfigStorage.cpp', T + 'SupplierConfigBuilder.cpp', T + 'save_part_depot_config.cpp', T + 'save_depot_config.cpp', T + 'Table.cpp', T + 'Field.cpp', T + 'FieldType.cpp', T + 'Index.cpp', T + 'Class_1CD.cpp', T + 'TableFiles.cpp', T + 'cfapi/V8Catalog.cpp'],
     [('look-ups in containers and pack files', 'V8Catalog::get_file, V8File::get_catalog, PackDirectory::get_data'), ('tables of a base', 'T_1CD::table_*, Table::file_blob'), ('texts in braces', 'Table::init, Field::field_from_tree, field_type_declaration::parse_tree, Index::index_from_tree, ConfigStorageTableConfigCas')],
     'null-value analysis (disjunctive constant propagation with the absent value injected at each look-up, callees judged in the context of the call), iterator typestate, abstract trees with every number of elements up to 7',
     'A text tree is judged with up to seven elements per list, more count as seven; smart pointers other than those of text trees are trusted.')

prop('P16', 'A text in braces is read as the tree it denotes',
     'A text in braces, from memory or from a stream, is read as the tree it denotes: lists nested as the braces, elements in order and none left out or added, an empty place as an empty element, quoted elements without their quotes and with doubled quotes as one, other elements as they stand, with spaces, tabs and line ends between elements ignored. '
     'A text that denotes no tree (a brace missing or too many, something other than a delimiter behind a closed element, an unfinished quoted element, nothing at all, or, inside braces, an element of unknown kind) is refused with an error. '
     'A tree written as text and read again is the same tree.',
     ['inputs'], 'every text, from either source, and every tree',
     'Tests read a handful of well-formed texts and compare the two readers with each other; malformed texts, empty lists and rare combinations of quotes and delimiters do not occur.',
     [T + 'Parse_tree.cpp', T + 'Parse_tree.h'],
     [('the reader', 'parse_flow, read_next_flow, parse_1Ctext, parse_1Cstream'), ('the tree', 'Tree'), ('the writer', 'outtext, Tree::outtext')],
     'value propagation with named characters (classes of characters by range) through the state machine of the reader, its tree and the writer, against the grammar',
     'All texts of up to four characters over seven classes of characters, which takes each step from each state of the reader, and about 140 longer ones; the characters that are not special are symbolic; the kind of an element (its regular expression) is a parameter.')

prop('P17', 'A container gives back exactly the files that were written into it',
     'What is written into a file of a container (cf, epf, cfu, and a container inside of a file) - wholly or in part, shorter or longer than before - is what that file holds after the container was flushed or closed and is opened again: its blocks form a chain of its own that is read back whole and in order, no block belongs to two files or to a file and to the list of free blocks, released blocks go to that list, and other files stay as they are. '
     'The directory then lists every file that was created and written and not deleted, in order, with the places of its data and of its header (times, name), also where these got another place, and a container inside of a file is written before that file. '
     'Only a file whose directory and first free block begin with the signs of a block, or an empty container, is taken for a container.',
     ['inputs', 'histories'], 'every sequence of creating, writing, flushing, closing and deleting files; every length of data and every state of the block chains',
     'The tests open containers that exist; chains of several blocks, reuse of free blocks, blocks without room, growing and shrinking over block limits and containers in containers are not written in any of them.',
     [T + 'cfapi/V8Catalog.cpp', T + 'cfapi/V8File.cpp', T + 'cfapi/APIcfBase.cpp', T + 'cfapi/APIcfBase.h', T + 'cfapi/V8Time.cpp'],
     [('blocks', 'V8Catalog::write_block, V8Catalog::free_block, read_block'), ('files', 'V8File::write, V8File::close, V8File::flush, V8File::write_and_close'), ('directory', 'V8Catalog::~V8Catalog, V8Catalog::Flush, V8Catalog::initialize, V8Catalog::createFile'), ('form of a block', 'stBlockHeader'), ('recognition', 'V8Catalog::is_catalog, V8File::is_catalog')],
     'abstract interpretation of the block functions on abstract containers (block chains, free lists and lengths at their limits), judged by a chain invariant; effect tables of closing, flushing and reading a directory',
     'Chains of up to three blocks and two free blocks stand for longer ones; renaming a file that is not open, and creating a file without writing it, are left out.')
prop('P21', 'GUIDs, binary values, numbers and dates are shown with exactly their digits',
     'A GUID is shown with two lower-case hexadecimal digits for each of its bytes in the order of the 1C or of the Microsoft notation, a text of 36 characters (1C notation) or of 32 (stored order) gives back the bytes it shows, a text of any other length is refused with an error of the library, and GUIDs are equal, ordered and empty exactly as their bytes are; any other binary value is shown with two such digits for each byte in stored order. '
     'A decimal number is shown with its sign and all its digits in order, without zeros before its whole part and behind its fraction, and a date with its year, month, day, hour, minute and second in their places and with all their digits, in text, in XML and in the times of files. '
     'Each value is taken from its own bytes only.',
     ['inputs'], 'every GUID, binary value, number of any length and precision, and date',
     'Tests try a handful of values; an order, a digit, a sign or a zero that goes wrong shows only in particular values.',
     [T + 'BinaryGuid.cpp', T + 'BinaryDecimalNumber.cpp', T + 'Common.cpp', T + 'FieldType.cpp'],
     [('GUIDs', 'BinaryGuid, GUIDas1C, GUIDasMS'), ('numbers and dates', 'BinaryDecimalNumber, BinaryDecimalDate'), ('presentations', 'BinaryFieldType, GuidFieldType, NumericFieldType, DatetimeFieldType')],
     'value propagation in a provenance domain (digits of the stored value kept symbolic, with ranges) through memory, strings and collections; set of bytes read',
     'Lengths of numbers and binary values are sampled at fixed sizes, every digit is symbolic in its range and every zero is a case of its own; the standard library is modelled by contract.')

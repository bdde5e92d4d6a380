DEC = ["src/osm/pbf/osm_data.rs"]
ENC = ["src/osm/pbf/osm_data.rs", "src/osm/pbf/dense_group_builder.rs", "src/osm/pbf/ways_group_builder.rs", "src/osm/pbf/relations_group_builder.rs", "src/osm/pbf/string_table_builder.rs"]

prop("C01", "Every node written to a PBF data block decodes to the same node",
 "For every list of elements placed in a data block, each node contributes exactly one entry to every dense column of the block (id, latitude, longitude, version, timestamp, changeset, uid, user, visible, tags), in list order, and other kinds contribute none. Each entry, decoded by the PBF rules (differences accumulated from zero, string indexes looked up in the block's table, granularity and offsets applied), is that node's own value, with coordinates rounded to the nearest 1e-7 degree. Nodes are never dropped because other kinds are present in the same block.",
 ["inputs"], "all element lists, of any length and mix of kinds, and all field values of their nodes",
 "Tests encode a handful of fixture nodes whose columns are mostly zero or constant; a swapped column, a lost delta or a dropped last element needs specific adjacent values.",
 ENC, [("dense node columns", "src/osm/pbf/dense_group_builder.rs DenseGroupBuilder::add"), ("group assembly", "src/osm/pbf/osm_data.rs OsmData::serialize")])
prop("C02", "Every way written to a PBF data block decodes to the same way",
 "For every list of elements placed in a data block, each way contributes exactly one way message, in list order, whose id, version, timestamp, changeset, uid, user, visibility, tags and node references are that way's own. Node references are stored as differences that restart from zero in every way and accumulate back to the references in their original order. Tag keys and values stay paired, complete and in order.",
 ["inputs"], "all element lists and all field values, tag lists and reference lists of their ways",
 "Fixtures have few ways per block; state leaking from one way to the next, or a dropped tag or reference, needs particular sequences of ways.",
 ENC, [("way messages", "src/osm/pbf/ways_group_builder.rs WaysGroupBuilder::add"), ("group assembly", "src/osm/pbf/osm_data.rs OsmData::serialize")])
prop("C03", "Every relation written to a PBF data block decodes to the same relation",
 "For every list of elements placed in a data block, each relation contributes exactly one relation message, in list order, whose scalar fields, tags and members are that relation's own. The member id, kind and role columns advance in lockstep with one entry per member in member order; ids are differences restarting from zero in every relation, kinds are the codes 0 node, 1 way, 2 relation, and roles are indexes of the member's own role string.",
 ["inputs"], "all element lists and all member and tag lists of their relations",
 "Fixtures contain a few relations with mostly one member kind; mixed member kinds after one another and repeated roles are not enumerated.",
 ENC, [("relation messages", "src/osm/pbf/relations_group_builder.rs RelationsGroupBuilder::add"), ("group assembly", "src/osm/pbf/osm_data.rs OsmData::serialize")])
prop("C04", "Every node in a PBF data block is decoded with its own values",
 "For every well-formed data block, each entry of a dense node group and each plain node message becomes exactly one node, in file order. Ids, coordinates, timestamps, changesets, user ids and user indexes of dense nodes are the running sums of their columns starting from zero; coordinates are (offset + granularity x value) / 1e9 and timestamps are multiples of the block's date granularity, with the schema defaults where the block states none; strings are the table entries at the given index. Tags of a dense node are the key/value pairs up to its own 0 delimiter, and a node without recorded visibility is visible.",
 ["inputs"], "all well-formed primitive blocks: any granularity, offsets, columns, groups and string tables",
 "Fixtures all use the default granularity, no offsets, full visibility columns or none, and one group per block.",
 DEC, [("dense nodes", "src/osm/pbf/osm_data.rs OsmData::read_dense"), ("plain nodes", "src/osm/pbf/osm_data.rs OsmData::read_nodes")])
prop("C05", "Every way and relation in a PBF data block is decoded with its own values",
 "For every well-formed data block, each way message and each relation message becomes exactly one element, in file order, with the recorded id, version, timestamp, changeset, user id, user name, visibility and tags. Way references and relation member ids are running sums that restart from zero in every message; member kinds 0, 1, 2 become node, way and relation members, and each member keeps its own id and role.",
 ["inputs"], "all well-formed primitive blocks with any way and relation messages",
 "Fixtures do not cover missing metadata, other date granularities, or every member kind after every other one.",
 DEC, [("way messages", "src/osm/pbf/osm_data.rs OsmData::read_ways"), ("relation messages", "src/osm/pbf/osm_data.rs OsmData::read_relations")])
prop("C07", "String indexes written to a data block always denote the right string",
 "In every encoded data block, entry 0 of the string table is blank and is never used for a real string, and every index emitted for a string is the position at which that very string was appended to the same block's table. Every string is a string of the block's elements, and indexes remembered for repeated strings stay valid however many strings follow.",
 ["inputs"], "all element lists and all sequences of repeated and new strings",
 "An off-by-one or a stale remembered index only shows when a string repeats after particular others; tests compare few fixture blocks.",
 ENC, [("string table", "src/osm/pbf/string_table_builder.rs StringTableBuilder::add"), ("string table embedding", "src/osm/pbf/osm_data.rs OsmData::serialize")])
RD = ["src/osm/pbf/file_block.rs", "src/osm/pbf/blob_iterator.rs", "src/osm/pbf/file_block_iterator.rs", "src/osm/pbf/blob_desc.rs"]
prop("C10", "Blocks in a PBF file are framed and found at the right place",
 "A file written block by block is, per block, a four byte big-endian length of the header, the header, and a body whose size the header states, each written once and in that order. Reading back visits the blocks of a well-formed file one after another from offset zero: every block starts exactly where the previous one's body ends, its reported kind is the one in its header, and the bytes decoded as its body are exactly the bytes the header delimits. Iteration ends only when no further length can be read.",
 ["inputs"], "all sequences of blocks with any header and body sizes",
 "Fixtures use header sizes below 256 bytes and a writer that always writes the whole buffer; positions are only exercised sequentially on one small file.",
 RD + ["src/osm/pbf/file_info.rs"], [("framing", "src/osm/pbf/file_block.rs FileBlock::serialize"), ("block positions", "src/osm/pbf/blob_iterator.rs BlobIterator::next")])
prop("C11", "Block bodies are stored and restored intact under every compression setting",
 "For every block and every compression setting, the written body holds the block's encoded message, either plainly or as one complete zlib stream accompanied by the message's uncompressed size, and the header names the block's kind and the size of that very body. Reading a body restores exactly the plain bytes or the inflated zlib bytes, bounded by the stated uncompressed size, and decodes them as the kind the header names; unsupported encodings and unknown kinds are errors.",
 ["inputs", "config"], "all block contents, all compression settings, all encodings of a body",
 "Tests use the default level only; a stream that is not finished, or a raw size of the wrong buffer, shows on particular sizes or levels.",
 ["src/osm/pbf/file_block.rs", "src/osm/pbf/compression_type.rs"], [("encode", "src/osm/pbf/file_block.rs FileBlock::serialize"), ("decode", "src/osm/pbf/file_block.rs FileBlock::zlib_decode")])
prop("C12", "The sequential writer stores every accepted element once and in order",
 "Whatever sequence of nodes, ways and relations is handed to the sequential writer, every accepted element is placed in exactly one data block, in the order of arrival, and every block holds one kind of element and no more than the block size limit. Closing the writer stores what is still held back, once. An element of a kind that must not follow the previous one is refused, never stored silently.",
 ["history", "inputs"], "all sequences of write calls followed by close",
 "Tests write fixture sequences far shorter than a block; what happens at the block limit, and at each change of kind, needs sequences of tens of thousands of elements.",
 ["src/osm/pbf/writer.rs"], [("buffering", "src/osm/pbf/writer.rs Writer::write_element"), ("close", "src/osm/pbf/writer.rs Writer::close")])
prop("C13", "The parallel writer's blocks reach the file in the order they were cut",
 "Whatever order the encoding threads finish in, the file written by the parallel writer consists of the header block followed by the data blocks in exactly the order in which they were cut from the sorted elements. Each block is written once and whole, as soon as all its predecessors are written, and no block is skipped or left waiting once its predecessors are there.",
 ["schedule"], "all completion orders of the encoding threads, all numbers of blocks",
 "A handful of runs samples few completion orders; a block skipped, repeated or written early needs a particular interleaving.",
 ["src/osm/pbf/parallel_writer.rs"], [("numbering", "src/osm/pbf/parallel_writer.rs flush_sorted_top"), ("writing", "src/osm/pbf/parallel_writer.rs WriteBlobCommand")])
prop("C14", "The parallel writer loses and duplicates no element",
 "Every element accepted by the parallel writer ends up in exactly one data block, sorted within the ordering buffer it passed through, and every block holds one kind of element and at most the configured number of them. Closing writes everything still buffered: it empties the ordering buffer and waits for each stage before shutting down the next.",
 ["history", "schedule"], "all sequences of write calls, buffer sizes and block sizes, followed by close",
 "Tests use sorted input of one size; loss happens at the change of kind, at a full block, at an exactly empty buffer or when closing while work is pending.",
 ["src/osm/pbf/parallel_writer.rs"], [("cutting", "src/osm/pbf/parallel_writer.rs split_file_block"), ("close", "src/osm/pbf/parallel_writer.rs ParallelWriter::close")])
prop("C15", "The parallel writer never stores an element behind one that must follow it",
 "An element is accepted into the ordering buffer only if it does not belong before the last element of the last block that was cut, so an input whose disorder exceeds the buffer stops the writer instead of producing a file out of order. Within what is accepted, blocks follow the element order.",
 ["history"], "all sequences of elements, including ones disordered beyond the buffer size",
 "The violation needs an input disordered by more than the buffer, reaching the guard through each of the ways elements are handed over.",
 ["src/osm/pbf/parallel_writer.rs"], [("guard", "src/osm/pbf/parallel_writer.rs assert_order"), ("memory", "src/osm/pbf/parallel_writer.rs set_current_min_element")])
prop("C16", "Elements are totally ordered: nodes, ways, relations, then the end marker",
 "Elements compare first by kind, node before way before relation before the end marker, and within a kind by identifier; the comparison is reflexive, antisymmetric, transitive and total, and the equality, partial and total comparison operators agree with each other. An element compared by kind only agrees with its kind's place in that order.",
 ["inputs"], "all pairs of elements",
 "Tests compare a few pairs; an order relation quantifies over all pairs and triples, including the end marker on either side.",
 ["src/osm/model/element.rs"], [("order", "src/osm/model/element.rs Element::cmp")])
prop("C24", "A bounding box is the tightest box around every coordinate it was given",
 "Merging a coordinate or another box into a bounding box yields the smallest box containing both: the left and bottom edges are minima, the right and top edges are maxima, no edge depends on the order of merging, and a box never shrinks. The box computed for a file or a block covers all of its nodes and nothing else, whatever the schedule of the workers; a file without nodes, or one that cannot be read completely, yields an error instead of a box.",
 ["inputs", "history", "schedules"], "all coordinates, all sequences of merges, all files, all schedules",
 "Fixtures merge a handful of points in one quadrant; sign and order dependent slips need particular combinations of coordinates.",
 ["src/osm/model/bounding_box.rs", "src/osm/pbf/calc_bounding_box_command.rs", "src/osm/pbf/bounding_box_calculator.rs", "src/osm/pbf/osm_data.rs"], [("merge", "src/osm/model/bounding_box.rs BoundingBox::merge_point"), ("blocks", "src/osm/pbf/calc_bounding_box_command.rs CalcBoundingBoxCommand::execute"), ("files", "src/osm/pbf/bounding_box_calculator.rs BoundingBoxCalculator::calc")])
prop("C20", "Reading a file yields every element of every data block once, in file order",
 "Iterating over a file gives exactly the elements of its data blocks, each once and in the order of the file, and ends only after the last block: blocks without elements and header blocks in the middle of a file are passed over without ending the iteration. Iterating over blocks gives the decoded block of every blob in turn, starting with the first blob of the file the reader was opened on.",
 ["inputs", "history"], "all files, all numbers and sizes of blocks including empty ones and concatenated files",
 "Fixtures have one header and no empty data block; an early end needs an empty or header block between data blocks.",
 ["src/osm/pbf/element_iterator.rs", "src/osm/pbf/file_block_iterator.rs", "src/osm/pbf/reader.rs"], [("iteration", "src/osm/pbf/element_iterator.rs next, create_element_iterator"), ("blocks", "src/osm/pbf/file_block_iterator.rs next"), ("entry", "src/osm/pbf/reader.rs elements, blocks")])
prop("C19", "Parallel iteration hands every element to the callback exactly once",
 "Iterating in parallel passes each element of each data block of the file to the callback exactly once, a block's elements in order by one worker followed by one end marker, for every number of workers and every schedule. It returns success only after all blocks are done, and only if every block could be decoded and every call of the callback succeeded.",
 ["schedules", "inputs"], "all files, numbers of workers, schedules and callback results",
 "A lost or repeated block or an ignored failure depends on timing and on which block fails; tests count one fixture.",
 ["src/osm/pbf/reader.rs", "src/osm/pbf/parallel_element_iteration_command.rs"], [("distribution", "src/osm/pbf/reader.rs parallel_for_each"), ("delivery", "src/osm/pbf/parallel_element_iteration_command.rs execute")])
prop("C23", "Object counts are the numbers of nodes, ways and relations in the file",
 "Counting returns how many nodes, ways and relations the file holds, in that order, for every file and every schedule of the workers; end markers are not counted and no concurrent update is lost. A file that cannot be read completely yields an error instead of counts.",
 ["schedules", "inputs"], "all files and schedules",
 "Lost updates and mixed up kinds need concurrent workers and particular mixtures of elements.",
 ["src/osm/pbf/reader.rs"], [("counts", "src/osm/pbf/reader.rs count_objects")])
prop("C21", "A file is opened exactly when all the features it requires are supported",
 "Creating a reader succeeds only if the file starts with a header block and every feature that header requires is in the reader's list of supported features, and never fails merely because of features that are all supported. That list names only features the decoder implements, and the information a reader reports is that of the file's first header.",
 ["inputs"], "all headers with any lists of required and optional features",
 "Tests check three feature lists; acceptance must hold for every list, whatever its length, order or repetitions.",
 ["src/osm/pbf/reader.rs"], [("check", "src/osm/pbf/reader.rs verify_supported_features"), ("entry", "src/osm/pbf/reader.rs Reader::new")])
prop("C22", "File header information survives writing and reading unchanged",
 "Every header field a writer is given - bounding box, required and optional features, writing program, source and the three replication fields - is written to the header of the file at the path the writer was created with, by the sequential and the parallel writer alike, and is reported unchanged when the header is read, present exactly when it was given. Box edges keep their sides and are stored as the nearest multiple of 1e-9 degree. A writer created from individual values, and default header information, announces exactly the features it uses: the schema and dense nodes always, history exactly when asked for, and the type-then-id order.",
 ["inputs"], "all file informations, with any subset of the fields and any values",
 "Tests use one header with mostly absent fields; swapped sides, lost fields and rounding differences need other combinations and values.",
 ["src/osm/pbf/osm_header.rs", "src/osm/pbf/file_info.rs", "src/osm/pbf/writer.rs", "src/osm/pbf/parallel_writer.rs"], [("encode", "src/osm/pbf/osm_header.rs OsmHeader::serialize"), ("decode", "src/osm/pbf/osm_header.rs OsmHeader::from_bytes"), ("writers", "src/osm/pbf/writer.rs Writer::write_header")])
ADW = ["src/osm/apidb_dump/write/writer.rs", "src/osm/apidb_dump/write/table_data_writers.rs", "src/osm/apidb_dump/write/toc.rs", "src/osm/apidb_dump/sql.rs"]
prop("C25", "Every row of a written dump holds the element's values in the declared columns",
 "For every element written to an API database dump, the rows added to the tables of its kind have exactly the columns the dump's own table of contents declares for that table, in that order, and each column holds the element's own value: ids, versions, changesets, references and members verbatim and in order with positions counted from one, coordinates in 1e-7 degrees, booleans as t or f, instants as date and time, the tile as the interleaving of 16 bits of longitude and latitude. No rows go to other tables, and every table's rows go to the data file the table of contents names.",
 ["inputs"], "all elements with any values, numbers of tags, references and members",
 "The tests compare one small fixture whose rows are mostly regular; swapped columns or positions that are off need particular values.",
 ADW, [("rows", "src/osm/apidb_dump/write/writer.rs write_node, write_way, write_relation"), ("files", "src/osm/apidb_dump/write/table_data_writers.rs TableDataWriters::new"), ("tile", "src/osm/apidb_dump/sql.rs calculate_tile")])
prop("C26", "Text in a written dump reads back as the text it was",
 "Every tag key and value, member role and user name written to an API database dump is escaped such that reading the column by the rules of the COPY text format gives back the very same text, whatever characters it contains: tabs, line breaks, backslashes, control characters, the null marker and the end-of-data marker as text are all preserved. A text never adds a column or a row.",
 ["inputs"], "all texts, over all characters",
 "Fixtures contain no control characters and almost no backslashes; each special character, and each pair of them, is a case of its own.",
 ADW, [("escaping", "src/osm/apidb_dump/sql.rs escape_copy_text"), ("columns", "src/osm/apidb_dump/write/writer.rs write_node, write_way, write_relation, write_users")])
prop("C27", "The current tables of a dump hold exactly each object's last visible version",
 "When elements are written to a dump in the order of their kinds, ids and versions, each of the eight tables of current objects receives the rows of the last version of every object, once, and none for an object whose last version is deleted. Closing the dump adds the rows of the objects written last; objects of different kinds do not disturb each other.",
 ["inputs", "history"], "all sequences of versions of all objects, any mix of visibilities and kinds, any number of tags and members",
 "The fixture has one version per object; deleted last versions, re-created objects and objects without tags after objects with tags need particular histories.",
 ["src/osm/apidb_dump/write/writer.rs", "src/osm/apidb_dump/write/current_object.rs"], [("last version", "src/osm/apidb_dump/write/current_object.rs CurrentObjectLine, CurrentObjectLines"), ("use", "src/osm/apidb_dump/write/writer.rs write_node, write_way, write_relation, flush_current_object_lines")])
prop("C28", "Closing a dump completes every table, and every user and changeset is listed",
 "After closing a dump, the data file of every table the table of contents declares ends with exactly one end-of-data line behind its rows and has been flushed. Every user id that owns a written element has one row in the users table with that user's name, and every changeset of a written element has one row in the changesets table owned by the element's user.",
 ["inputs", "history"], "all sequences of elements, with any repetition of users and changesets",
 "A table without end-of-data line or unflushed rows only shows when that particular table is restored; the tests read back a few of the 53 tables.",
 ADW, [("closing", "src/osm/apidb_dump/write/writer.rs close"), ("tables", "src/osm/apidb_dump/write/table_data_writers.rs close, flush_buffers"), ("users and changesets", "src/osm/apidb_dump/write/writer.rs write_users, write_changesets")])
ARD = ["src/osm/apidb_dump/read/reader.rs", "src/osm/apidb_dump/read/table_reader.rs", "src/osm/apidb_dump/read/table_fields.rs", "src/osm/apidb_dump/read/element_iterator.rs"]
prop("C29", "Every table of a dump is read completely, from its own file, in key order",
 "Opening a dump finds every table its table of contents declares, wherever it stands there, and sorts the data file named for each of the ten tables into a file of that table's own, ordered by object id, then version, then position, all compared as numbers, passing over only the end-of-data line. Each table is then read from its sorted file, one record per row until the end of the file, and its columns are found by the names the dump declares, in whatever order the dump lists them.",
 ["inputs"], "all dumps, all orders of tables, columns and rows",
 "The fixture dumps have the usual column order and few rows; ids of different lengths, rows out of order and unusual column orders need other dumps.",
 ARD + ["src/osm/apidb_dump/read/table_def.rs", "src/osm/apidb_dump/read/table_pkey.rs"], [("opening", "src/osm/apidb_dump/read/reader.rs Reader::new, sort_tables"), ("columns", "src/osm/apidb_dump/read/table_fields.rs TableFields::new"), ("keys", "src/osm/apidb_dump/read/table_pkey.rs TablePkey::new")])
prop("C30", "Tags, references and members of a dump join exactly the version they belong to",
 "When the elements of a dump are read, every row of the tag, reference and member tables is attached to the one element whose id and version it carries, once and in the order of its table, whatever numbers of rows the elements have. No row is lost where one element's rows end and another's begin, and no row is attached to another element or version.",
 ["inputs", "history"], "all sequences of elements and of tag, reference and member rows in key order, including none and many per element",
 "Elements without rows between elements with rows, several versions of one object and the last row of a table each take a different path; fixtures hold few of the combinations.",
 ["src/osm/apidb_dump/read/node_relations_reader.rs", "src/osm/apidb_dump/read/way_relations_reader.rs", "src/osm/apidb_dump/read/relation_relations_reader.rs"],
 [("nodes", "src/osm/apidb_dump/read/node_relations_reader.rs next"), ("ways", "src/osm/apidb_dump/read/way_relations_reader.rs next"), ("relations", "src/osm/apidb_dump/read/relation_relations_reader.rs next")])
prop("C31", "Every element read from a dump holds the values of its rows",
 "An element read from a dump has the id, version, changeset, visibility and instant of its row, coordinates in degrees with latitude and longitude in place, the user that owns its changeset by id and by name, its tags' keys and values, its references and its members' kinds, ids and roles - each taken from the column of that name.",
 ["inputs"], "all dumps with any values",
 "Columns of one type can be exchanged without notice when fixtures hold equal or regular values.",
 ARD, [("elements", "src/osm/apidb_dump/read/element_iterator.rs next"), ("rows", "src/osm/apidb_dump/read/table_reader.rs create_node, create_way, create_relation")])
prop("C32", "A dump's elements come as nodes, ways, relations, a marker after each kind",
 "Iterating over a dump yields all nodes, an end marker, all ways, an end marker, all relations, an end marker, and then ends; it stays ended. Each element read from the tables is yielded once, and a kind without any elements still yields its marker.",
 ["inputs", "history"], "all dumps, including ones without nodes, ways or relations",
 "Dumps that lack a kind, and continuing after the end, are not in the fixtures.",
 ["src/osm/apidb_dump/read/element_iterator.rs"], [("sequence", "src/osm/apidb_dump/read/element_iterator.rs next")])
prop("C33", "Every legal row of a dump is read, by the rules of the COPY text format",
 "A row that is legal for its table is read without failing and without being passed over: columns that may be null may hold the null marker, booleans are t or f, instants have or lack a fraction of a second, and member kinds and user states are the database's own literals. Text columns are restored by the escapes of the COPY text format, whatever characters they contain.",
 ["inputs"], "all legal rows of the ten tables, all texts over all characters",
 "Null markers in rarely null columns, fractions of seconds, each literal and each escape are cases of their own, most of which no fixture contains.",
 ["src/osm/apidb_dump/read/table_reader.rs", "src/osm/apidb_dump/sql.rs", "src/osm/apidb_dump/read/user_record.rs", "src/osm/apidb_dump/read/relation_member_record.rs"],
 [("rows", "src/osm/apidb_dump/read/table_reader.rs create_node, create_changeset, create_user"), ("texts", "src/osm/apidb_dump/sql.rs unescape_copy_text"), ("literals", "src/osm/apidb_dump/sql.rs parse_sql_bool, parse_sql_time")])
prop("C17", "A failed write never goes unnoticed",
 "If creating, encoding, compressing, writing or flushing any part of an output fails - a file, a block, a header, a table, an index - the call during which it failed does not report success: it returns an error or aborts. Work done on the threads of a writer returns such an error to its pool instead of ending the thread, and closing the parallel writer reports the failure of any of its pools.",
 ["inputs", "history", "schedules"], "every single failure of any operation that can fail, at any point of any output, in every call that contains it",
 "No test makes a write fail: that takes a full disk or an unwritable place at one particular point, and a writer's threads hide the error from the caller.",
 ["src/osm/pbf/writer.rs", "src/osm/pbf/parallel_writer.rs", "src/osm/pbf/file_block.rs"] + ADW,
 [("blobs", "src/osm/pbf/writer.rs Writer::write_blob"), ("threads", "src/osm/pbf/parallel_writer.rs ParallelWriter::close, write_header, execute"), ("tables", "src/osm/apidb_dump/write/table_data_writer.rs close")])
prop("C18", "A failed read never passes for data or for the end of the data",
 "If opening, seeking, reading, decompressing, decoding, indexing or sorting any part of an input fails, the call during which it failed returns an error or aborts. It does not return an element or a result as if nothing had happened, and an iteration ends only if its iterator keeps the error and returns it when asked; work done on the threads of a reader returns the error to its pool.",
 ["inputs", "schedules"], "every single failure of any operation that can fail, at any point of any input, in every call that contains it",
 "Tests read whole and healthy files; each place where reading may fail is a case of its own, and a lost error looks just like a shorter file.",
 ["src/osm/pbf/blob_iterator.rs", "src/osm/pbf/file_block.rs", "src/osm/pbf/file_block_iterator.rs", "src/osm/pbf/reader.rs", "src/osm/pbf/parallel_element_iteration_command.rs", "src/osm/pbf/calc_bounding_box_command.rs"] + ARD,
 [("blobs", "src/osm/pbf/blob_iterator.rs read_blob_desc"), ("threads", "src/osm/pbf/reader.rs parallel_for_each"), ("tables", "src/osm/apidb_dump/read/reader.rs sort_tables")])
prop("C09", "Messages of a PBF file are those of the published format",
 "Every message that is written to or read from a PBF file has the fields of the published format: the same field numbers, wire types, presence, packing and default values, for all messages of a file - blob, blob header, header block, bounding box, data block, groups, string table, metadata, nodes, dense nodes, ways and relations. Files of other programs are therefore understood, and other programs understand the files written here.",
 ["inputs"], "all files written by this or another program, with any field of the format",
 "Tests read and write with the same declarations, so a changed one agrees with itself; the few foreign fixtures leave many fields at zero or absent.",
 ["src/osm/pbf/format/fileformat.proto", "src/osm/pbf/format/osmformat.proto", "src/osm/pbf/generated/prost-osmpbf.rs"],
 [("schema", "src/osm/pbf/format/osmformat.proto"), ("blobs", "src/osm/pbf/format/fileformat.proto"), ("generated code", "src/osm/pbf/generated/prost-osmpbf.rs")],
 technique="syntax-tree query: message declarations compared with the published schema",
 note="Decides the declarations of every message in schema and generated code; prost's own encoding of a declared field is trusted.")
prop("C36", "Model values report exactly what they were made of",
 "A node, way, relation, member, tag, coordinate, bounding box or file information reports through each of its accessors exactly the value it was made with, whatever the values, and so does a copy of it. Taking a part out yields that part and changes nothing else, setting a header field changes only that field, and asking whether a feature is required or optional answers whether it is in that very list. Fixed point coordinates are the nearest multiple of 1e-7 degree, and tags, members and coordinates are equal exactly when all their parts are.",
 ["inputs"], "all values of all fields",
 "Tests look at few fields of few values; an accessor that depends on another field, or a copy that loses one, needs the particular value.",
 ["src/osm/model/node.rs", "src/osm/model/way.rs", "src/osm/model/relation.rs", "src/osm/model/tag.rs", "src/osm/model/coordinate.rs", "src/osm/model/bounding_box.rs", "src/osm/pbf/file_info.rs"],
 [("elements", "src/osm/model/node.rs Node::new and accessors"), ("coordinates", "src/osm/model/coordinate.rs Coordinate::lat7, lon7"), ("header", "src/osm/pbf/file_info.rs FileInfo")])
prop("C37", "Elements accumulated on a thread are handed out once, complete and in order",
 "An element added to an accumulator is appended to those the same thread added to the same accumulator before, and to no other's. Taking the elements of a thread returns all that it added since it last took them, in the order of addition, and leaves none; other threads and other accumulators are unaffected.",
 ["history", "schedules"], "all sequences of additions and takings on any number of threads and accumulators",
 "Losing the first element, those beyond the capacity, or those of a second accumulator only shows in particular sequences; the parallel pipeline's tests that use it compare counts.",
 ["src/osm/pbf/thread_local_accumulator.rs"],
 [("adding", "src/osm/pbf/thread_local_accumulator.rs ThreadLocalAccumulator::add"), ("taking", "src/osm/pbf/thread_local_accumulator.rs ThreadLocalAccumulator::elements"), ("identity", "src/osm/pbf/thread_local_accumulator.rs ThreadLocalAccumulator::new")])
prop("C34", "No call and no worker thread waits for itself, directly or in a circle",
 "No call, and no work done on the library's threads, takes a lock or borrows a shared cell that it already holds incompatibly, on any path. The threads of one stage of the parallel writer wait only for later stages, and nobody waits for a stage while holding a lock that its threads need, so that writing, closing and parallel reading always get on.",
 ["schedules", "inputs"], "all interleavings of the threads, fillings of the queues and paths through the calls",
 "A circle needs full queues, an error path or a rare path through a function to close; tests finish before it does.",
 ["src/osm/pbf/parallel_writer.rs", "src/osm/pbf/reader.rs", "src/osm/pbf/calc_bounding_box_command.rs", "src/osm/pbf/bounding_box_calculator.rs", "src/osm/pbf/thread_local_accumulator.rs"],
 [("stages", "src/osm/pbf/parallel_writer.rs flush_sorted_top, EncodeFileBlockCommand::execute"), ("closing", "src/osm/pbf/parallel_writer.rs ParallelWriter::close, shutdown"), ("header", "src/osm/pbf/parallel_writer.rs ParallelWriter::write_header")],
 technique="dataflow of live lock and cell guards over MIR, combined with abstract interpretation; wait-for graph of pools")
prop("C35", "A bounding box is read from text exactly as written, or refused",
 "Text of the form 'left, bottom, right, top' gives the box of exactly these numbers; text with fewer numbers, with something that is no number, or with a number outside the limits of its side (180 degrees for longitudes, 90 for latitudes, limits included) is refused with an error and never ends the program. The text shown for a box names each side's value correctly, and the text of an instant is that instant in UTC to the second.",
 ["inputs"], "all texts, boxes and instants",
 "Two texts and two instants are tested, out of all orders of numbers and limits and all forms of broken text.",
 ["src/osm/model/bounding_box.rs", "src/osm/converters/mod.rs"],
 [("parse", "src/osm/model/bounding_box.rs from_str"), ("display", "src/osm/model/bounding_box.rs fmt"), ("instant", "src/osm/converters/mod.rs timestamp_to_iso8601_seconds")],
 technique="abstract interpretation of MIR; decision over the finitely many orders of the numbers and the limits",
 note="That the standard library parses a number right is trusted; texts that parse to NaN are not told apart.")
prop("C38", "Iterations, readers and writers do not disturb each other",
 "A reader can be iterated any number of times, by several iterators and threads at once, and each iteration sees the whole input from its start. Objects used in one process, on one thread or on many, one after the other or at once, do not influence each other: what one reads or writes depends on what it was given alone.",
 ["schedules", "histories"], "all sequences and interleavings of uses of any number of readers, iterators and writers",
 "A test uses one reader, one iterator or one writer, in a process of its own or after a few others; not all pairs, interleavings and histories.",
 ["src/osm/pbf/reader.rs", "src/osm/pbf/blob_iterator.rs", "src/osm/pbf/file_block.rs", "src/osm/pbf/blob_desc.rs", "src/osm/pbf/parallel_writer.rs", "src/osm/pbf/thread_local_accumulator.rs", "src/osm/apidb_dump/read/reader.rs", "src/osm/apidb_dump/read/element_iterator.rs"],
 [("iterators", "src/osm/pbf/reader.rs Reader::elements"), ("file handles", "src/osm/pbf/blob_iterator.rs BlobIterator::new"), ("thread locals", "src/osm/pbf/parallel_writer.rs ParallelWriter::from_file_info"), ("dump", "src/osm/apidb_dump/read/reader.rs Reader::elements")],
 technique="ownership analysis: type walk for shared mutable state and file positions, plus an effect analysis of statics and thread locals over MIR")
prop("C39", "Files are created only where the caller said, and outputs start empty",
 "Writing a PBF file creates exactly the file whose path the caller gave; writing a dump creates files only inside the given output folder, each once; reading a dump creates files only inside the given temporary folder, including those of its sorting. No file they have not made is moved or removed, input least of all, whether they succeed or fail, and an output file's earlier content is gone when it is opened.",
 ["inputs", "fault_sequences"], "all paths, all contents of the input and of what the folders already hold, success and every failure",
 "Tests write into fresh folders and look only at the expected files; an older, longer output, another folder or a failure half-way is not among them.",
 ["src/osm/pbf/writer.rs", "src/osm/pbf/parallel_writer.rs", "src/osm/apidb_dump/read/reader.rs", "src/osm/apidb_dump/read/table_def.rs", "src/osm/apidb_dump/write/writer.rs", "src/osm/apidb_dump/write/table_data_writer.rs", "src/osm/apidb_dump/write/toc.rs", "src/osm/pbf/blob_iterator.rs"],
 [("pbf output", "src/osm/pbf/writer.rs Writer::from_file_info"), ("parallel output", "src/osm/pbf/parallel_writer.rs ParallelWriter::write_header"), ("dump output", "src/osm/apidb_dump/write/writer.rs create_result_dir"), ("sorting", "src/osm/apidb_dump/read/reader.rs sort_tables")],
 technique="effect analysis of file-system operations over MIR: provenance of every path by abstract interpretation",
 note="Covers named files; unnamed memory maps of the index library and the sorter's own use of its folder are trusted.")
prop("C40", "What is read and written depends on the input and the settings alone",
 "Writing the same elements with the same settings gives the same bytes, and reading the same input gives the same elements and results: neither the clock, nor random numbers, nor the process, its environment, threads and memory addresses, nor the order in which a hash collection happens to be passed through has any influence on them. The only exception are the instants at which a dump lists its users and changesets as created and closed.",
 ["inputs", "configurations"], "all inputs, in all environments and at all times",
 "A test runs at one time in one environment, and compares contents rather than bytes; an order that comes from hash seeds agrees by chance for small inputs.",
 ["src/osm/pbf/string_table_builder.rs", "src/osm/pbf/osm_header.rs", "src/osm/pbf/osm_data.rs", "src/osm/pbf/writer.rs", "src/osm/pbf/parallel_writer.rs", "src/osm/apidb_dump/write/writer.rs", "src/osm/apidb_dump/write/table_data_writers.rs", "src/osm/apidb_dump/read/element_iterator.rs"],
 [("string tables", "src/osm/pbf/string_table_builder.rs StringTableBuilder::add"), ("header", "src/osm/pbf/osm_header.rs OsmHeader::serialize"), ("users and changesets", "src/osm/apidb_dump/write/writer.rs write_users"), ("required features", "src/osm/pbf/reader.rs find_missing_features")],
 technique="information-flow (taint) analysis over MIR: clock, chance, environment, addresses and hash order against everything written, returned or kept",
 note="Order among threads is C13, C14 and C19; the same process with other work in it is C38. Logging is not an output.")
prop("C41", "Every call comes to an end: loops and recursion make progress",
 "Every call on a finite input returns: each turn of a loop and each recursive call uses up part of something finite, whatever the input contains, be it empty blocks, negative or absurd sizes, or characters in any order. Iterating over a file or a dump gives finitely many items and then ends, no choice of block or buffer size makes a writer repeat itself without end, and how deep calls nest does not grow with the input.",
 ["inputs", "histories", "configurations"], "all inputs, all states an iterator can be in, all settings",
 "A test that does not end is only noticed for the inputs it happens to use; the inputs that make a loop stand still are malformed or extreme ones.",
 ["src/osm/pbf/blob_iterator.rs", "src/osm/pbf/element_iterator.rs", "src/osm/pbf/file_block_iterator.rs", "src/osm/pbf/element_accumulator.rs", "src/osm/pbf/parallel_writer.rs", "src/osm/apidb_dump/read/element_iterator.rs", "src/osm/apidb_dump/read/reader.rs", "src/osm/apidb_dump/read/table_reader.rs", "src/osm/apidb_dump/sql.rs"],
 [("blobs", "src/osm/pbf/blob_iterator.rs read_blob_desc"), ("elements", "src/osm/pbf/element_iterator.rs ElementIterator::next"), ("dump elements", "src/osm/apidb_dump/read/element_iterator.rs ElementIterator::next"), ("blocks", "src/osm/pbf/parallel_writer.rs flush_all_sorted"), ("table of contents", "src/osm/apidb_dump/read/reader.rs get_table_def_strings")],
 technique="termination analysis over MIR: lexicographic ranking of every loop, recursive function and iterator by abstract interpretation",
 note="Calls into libraries are taken to return; waiting for another thread is C15, C34 and C17.")
prop("C42", "Writers and parallel passes work with the settings they were given",
 "Every block a writer produces, including the header and whichever thread encodes it, uses the compression the writer was created with, for every way of creating it. A parallel writer hands elements on before it is closed exactly when more of them wait than the buffer size it was given, and limits blocks by the block size it was given, neither more nor less. A parallel pass over a file runs on as many threads as the caller asked for.",
 ["configurations", "inputs", "schedules"], "all settings, all elements written",
 "Settings reach the threads that use them through state set up elsewhere; with the values the tests use, a setting that is dropped, swapped or clamped gives a file that reads back the same.",
 ["src/osm/pbf/writer.rs", "src/osm/pbf/parallel_writer.rs", "src/osm/pbf/reader.rs"],
 [("compression", "src/osm/pbf/writer.rs Writer::write_file_block"), ("thread state", "src/osm/pbf/parallel_writer.rs ParallelWriter::from_file_info"), ("buffer", "src/osm/pbf/parallel_writer.rs AddElementsCommand::execute"), ("blocks", "src/osm/pbf/parallel_writer.rs split_file_block"), ("threads", "src/osm/pbf/reader.rs Reader::parallel_for_each")],
 technique="interprocedural value-flow analysis over MIR: settings followed through fields and thread-local state to the constructor's arguments, guards of cuts in linear normal form",
 note="What the compression does to a block is C11; that blocks keep order is C13.")


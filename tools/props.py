# Source of properties.jsonl and MANIFEST.json (run tools/gen_meta.py).
PROPS = [
 dict(id="C01", crate="hbase", title="Files written to a pak come back unchanged",
  statement="Every set of files written into a pak archive, in every archive version the writer supports, stored or compressed and with any block size and at any position of the file, reads back as exactly that set of paths with exactly those bytes and the mount point that was set. Writing the same path twice and reading a path that was never written are errors, and a version the writer does not support is refused instead of producing an unreadable archive.",
  over=["inputs", "configurations"], quant="all entry names (ASCII, unicode, nested), contents (empty, tiny, compressible, larger than a compression block), entry counts, pak versions, compression methods, block sizes, mount points and hash seeds",
  why="The tests round-trip one fixed folder in a few versions; they never vary sizes around compression-block limits, names, seeds, mount points or the number of entries.",
  files=["unreal_pak/src/pakwriter.rs", "unreal_pak/src/pakreader.rs", "unreal_pak/src/entry.rs", "unreal_pak/src/index.rs", "unreal_pak/src/header.rs"],
  mech=[("PakWriter::write_entry / finish_write", "unreal_pak/src/pakwriter.rs"), ("PakReader::load_index / read_entry", "unreal_pak/src/pakreader.rs")],
  observe=["PakReader::get_entry_names", "PakReader::read_entry"],
  tech="property-based testing: write/read round trip over generated archives",
  note="Random exploration with a round-trip oracle; trusts flate2's zlib implementation."),
 dict(id="C02", crate="hbase", title="Written paks are what the game's own pak format says they are",
  statement="An archive produced by the writer, when decoded by an independent implementation of the published pak layout, has a valid footer, an index covering exactly the written entries, matching SHA-1 hashes, matching sizes and compression blocks inside the entry, and contents equal to what was written.",
  over=["inputs", "configurations"], quant="all entry sets, versions, compression methods, block sizes and seeds the writer accepts",
  why="Reader and writer share code, so a mistake made consistently on both sides passes every round-trip test while the game rejects the file.",
  files=["unreal_pak/src/pakwriter.rs", "unreal_pak/src/entry.rs", "unreal_pak/src/index.rs", "unreal_pak/src/header.rs"],
  mech=[("index and footer writers", "unreal_pak/src/index.rs"), ("entry and block writer", "unreal_pak/src/entry.rs, header.rs")],
  observe=["bytes of the finished archive"],
  tech="property-based testing: differential against an independent strict pak parser",
  note="Random exploration; the oracle is a parser written from the format's description, sharing no code with the library."),
 dict(id="C03", crate="hbase", title="Paks made by other tools read correctly in every version",
  statement="An unencrypted archive laid out according to any supported version of the pak format by an independent encoder is read with exactly its entries and contents, whichever legal layout choices (gaps, entry order, plain or path-hash index with encoded entries, compression method slots, block sizes) the encoder took.",
  over=["inputs", "configurations"], quant="all versions the reader supports, entry layouts, padding, compression methods, block sizes and index encodings",
  why="The tests read a handful of committed archives made by one tool with one layout.",
  files=["unreal_pak/src/pakreader.rs", "unreal_pak/src/index.rs", "unreal_pak/src/header.rs", "unreal_pak/src/entry.rs"],
  mech=[("Footer::read", "unreal_pak/src/index.rs"), ("Index::read / Header::decode", "unreal_pak/src/index.rs, header.rs"), ("entry reader", "unreal_pak/src/entry.rs")],
  observe=["PakReader::get_entry_names", "PakReader::read_entry"],
  tech="property-based testing: generated foreign archives vs. the model they were encoded from",
  note="Random exploration; trusts the independent encoder, which is itself cross-checked by the independent parser of C02."),
 dict(id="C04", crate="hbase", title="In-memory pak editing behaves like a map of files",
  statement="After any sequence of creating, loading or merging archives, adding, replacing and reading entries, and changing archive settings, an editable pak holds exactly the files a plain map would hold, and saving it yields an archive with exactly those files and settings.",
  over=["histories", "inputs"], quant="all operation sequences and all archives loaded or merged along the way",
  why="The tests perform one load, one edit and one write.",
  files=["unreal_pak/src/pakmemory.rs"],
  mech=[("PakMemory::load / set_entry / remove_entry / write", "unreal_pak/src/pakmemory.rs")],
  observe=["PakMemory::get_entry", "PakMemory::get_entry_names", "saved archive"],
  tech="stateful model-based testing against a map model",
  note="Random operation histories up to tens of steps."),
 dict(id="C05", crate="hbase", title="Damaged, truncated or encrypted paks are refused, never misread",
  statement="Opening a truncated archive is an error, opening or reading one with damaged bookkeeping ends in an error or some result but never in a panic or abort, and damage confined to one file's stored data never affects the other files of the archive. Encrypted archives and entries are reported as unsupported, and so are entries whose compression method is not supported; compressed data that is damaged or ends early and entries that claim more than the file holds are errors, never returned as content.",
  over=["inputs", "fault_sequences"], quant="all truncation points and all byte corruptions of the footer, index and entry headers of generated archives",
  why="No test feeds a damaged archive at all.",
  files=["unreal_pak/src/pakreader.rs", "unreal_pak/src/index.rs", "unreal_pak/src/header.rs", "unreal_pak/src/entry.rs", "unreal_pak/src/error.rs"],
  mech=[("footer validation", "unreal_pak/src/index.rs"), ("bounds checks", "unreal_pak/src/index.rs, header.rs, entry.rs")],
  observe=["Result of load_index / read_entry"],
  tech="property-based fuzzing: structure-aware corruption of generated archives",
  note="Random exploration of single and multiple faults; panics and aborts are caught by a supervising process."),
 dict(id="C06", crate="hbase", title="Primitive and string encodings follow Unreal's serialization",
  statement="Every string, boolean, array, GUID and bit range written through the shared stream helpers has exactly the bytes Unreal's serialization defines, reads back as the same value leaving the stream right behind it, and the reported string size equals the bytes written. Malformed encodings yield an error, not a panic.",
  over=["inputs"], quant="all strings (empty, ASCII, unicode, absent), array lengths, and malformed length prefixes or truncations",
  why="There are no tests of these helpers; fixtures contain mostly short ASCII strings.",
  files=["unreal_helpers/src/read_ext.rs", "unreal_helpers/src/write_ext.rs", "unreal_helpers/src/bitvec_ext.rs"],
  mech=[("read_fstring / read_fstring_len", "unreal_helpers/src/read_ext.rs"), ("write_fstring", "unreal_helpers/src/write_ext.rs")],
  observe=["bytes written", "values read", "stream position"],
  tech="property-based testing: differential against an independent encoder plus round trip",
  note="Random exploration; strings up to hundreds of characters."),
 dict(id="C07", crate="hbase", title="GUIDs survive every textual and binary form",
  statement="A GUID keeps its value through its textual forms, its binary form, its four-word form and its 128-bit form, in the byte order Unreal uses; text that is not a GUID is rejected with an error.",
  over=["inputs"], quant="all 128-bit values and all strings offered as GUID text",
  why="Only a few constants are exercised.",
  files=["unreal_helpers/src/guid.rs"],
  mech=[("Guid conversions, Display and FromStr", "unreal_helpers/src/guid.rs")],
  observe=["converted values", "formatted text"],
  tech="property-based testing: round trip and differential against an independent formatter",
  note="Random 128-bit values plus mutated texts."),
 dict(id="C08", crate="hbase", title="Game paths and asset file paths translate faithfully",
  statement="Translating an in-game asset path to a file path replaces the leading game root by the content directory of the chosen game, adds the asset extension exactly when the path has none, and touches nothing else. Paths outside the game root are not translated.",
  over=["inputs", "configurations"], quant="all game names, directory depths, file names and extensions, including names with special characters",
  why="No test varies the game name or uses characters with special meaning.",
  files=["unreal_helpers/src/path.rs"],
  mech=[("game_to_absolute", "unreal_helpers/src/path.rs")],
  observe=["returned paths"],
  tech="property-based testing: differential against a direct specification",
  note="Random exploration over generated paths."),
 dict(id="C09", crate="hbase", title="Mod metadata of every schema version parses to its content",
  statement="Valid mod metadata of every supported schema version is parsed to exactly the data it states, older schemas being upgraded to the same meaning in the current one; metadata that is malformed, lacks required fields or carries an invalid version is an error, never a panic or a silently altered mod.",
  over=["inputs", "configurations"], quant="all metadata documents of schema 1 and 2 and mutations of them",
  why="The tests hold one document per schema version.",
  files=["unreal_mod_metadata/src/lib.rs", "unreal_mod_metadata/src/v1.rs", "unreal_mod_metadata/src/v2.rs"],
  mech=[("from_slice", "unreal_mod_metadata/src/lib.rs"), ("v1 upgrade", "unreal_mod_metadata/src/v1.rs")],
  observe=["parsed metadata or error"],
  tech="property-based testing: generated documents vs. the model they state, mutation fuzzing",
  note="Random exploration; trusts serde_json and semver."),
 dict(id="C10", crate="hbase", title="Mod metadata compares, hashes and saves by content",
  statement="Two metadata values are equal exactly when they state the same content regardless of the order in which it was written, equal values hash equally, and saving metadata and parsing it again yields an equal value.",
  over=["inputs"], quant="all metadata documents, key orders and single-field differences",
  why="No test compares two documents that differ in order or in one field.",
  files=["unreal_mod_metadata/src/lib.rs", "unreal_mod_metadata/src/v2.rs"],
  mech=[("Eq/Hash implementations", "unreal_mod_metadata/src/lib.rs")],
  observe=["equality, hash and re-parsed value"],
  tech="metamorphic property-based testing (permutation and one-field perturbation)",
  note="Random exploration."),
 dict(id="C11", crate="hcli", title="The pak command line tool packs and unpacks directories faithfully",
  statement="unreal_pak_cli create writes a pak holding exactly the regular files below the directory, by relative path with forward slashes, with their content (compressed unless told not to), to the file named or else to the directory's name plus .pak, replacing what was there and touching nothing else; extract recreates exactly the files of a pak in the directory named or else next to the pak under its stem, replacing files that are there and leaving others alone; check and check-header exit 0 for exactly the paks whose entries, respectively header, can be read and 1 otherwise without changing anything; no command ends in a panic; and extracting never writes outside of the output directory, whatever the names in the pak are, but fails. When the disk fills up, the tool does not report success for a pak or files that are cut off. A directory, file or pak that is missing or cannot be read or written is reported with exit code 1, and nothing else than the target is changed.",
  over=["inputs", "fault_sequences"], quant="all directory trees, ways to name the paths, damaged paks, entry names and sizes at which the disk is full",
  why="The tool has no tests; its path handling depends on how directories are named and its containment on names that no well-behaved pak has.",
  files=["unreal_pak_cli/src/main.rs"],
  mech=[("main", "unreal_pak_cli/src/main.rs"), ("check_header", "unreal_pak_cli/src/main.rs")],
  observe=["exit code of the tool", "files in the scratch directory before and after"],
  tech="property-based testing: the tool is run as a process on generated directory trees, damaged paks and hostile names, compared with a model of the file tree; shrinking",
  note="Random exploration; runs in scratch directories, and as an unprivileged user where names may be hostile; symbolic links, unreadable files, names with backslashes or that are not UTF-8, and paks inside the packed directory are not generated."),
 dict(id="C12", crate="hasset", title="Indexed maps behave as an insertion-ordered map with stable indices",
  statement="After any history of insertions, updates and removals, the indexed map used for name-keyed tables holds exactly the entries a model map holds: iteration in insertion order, lookups by key and by index agreeing with each other, removed entries gone from every view, iterators that can be walked from both ends and know how much is left, and equality deciding by content.",
  over=["histories"], quant="all histories of inserts, overwrites, removals by key or index, mutation, cloning and collection",
  why="No test removes an entry or mixes key and index lookups after a removal.",
  files=["unreal_asset/unreal_asset_base/src/containers/indexed_map.rs"],
  mech=[("IndexedMap insert/remove/entry/iterators", "unreal_asset/unreal_asset_base/src/containers/indexed_map.rs")],
  observe=["iterators", "get_by_key / get_by_index", "PartialEq"],
  tech="stateful model-based testing against a vector model",
  note="Random histories up to 40 steps over up to 12 keys."),
 dict(id="C13", crate="hasset", title="A chained reader equals the concatenation of its parts",
  statement="Reading and seeking in a chain of an asset file and its bulk file gives at every point of every history the same bytes, positions and end-of-stream results as one file holding both parts in order; seeking before the start is an error.",
  over=["histories", "inputs"], quant="all sources (including empty and missing second ones) and all histories of reads and seeks",
  why="Fixtures only read forward over the seam.",
  files=["unreal_asset/unreal_asset_base/src/containers/chain.rs"],
  mech=[("Chain Read/Seek", "unreal_asset/unreal_asset_base/src/containers/chain.rs")],
  observe=["bytes read", "stream position"],
  tech="stateful model-based testing against a contiguous cursor",
  note="Random histories up to 25 operations on sources up to 60 bytes each."),
 dict(id="C14", crate="hasset", title="Names keep their text through the name table",
  statement="A name created from a text always yields that text and its instance number, names with equal text and number are equal and hash equally, adding an existing name returns the existing entry, in-place changes are seen by every later lookup, and package indices distinguish imports, exports and none exactly by sign.",
  over=["histories", "inputs"], quant="all histories of name additions, forced duplicates, renames and lookups, and all 32-bit package indices",
  why="Tests never rename an entry or force duplicates.",
  files=["unreal_asset/unreal_asset_base/src/containers/name_map.rs", "unreal_asset/unreal_asset_base/src/types/fname.rs", "unreal_asset/unreal_asset_base/src/types/package_index.rs"],
  mech=[("NameMap add/search/get", "unreal_asset/unreal_asset_base/src/containers/name_map.rs"), ("FName content/equality/hash", "unreal_asset/unreal_asset_base/src/types/fname.rs")],
  observe=["FName::get_content", "NameMap lookups", "Eq/Hash of names"],
  tech="stateful model-based testing against a vector model",
  note="Random histories up to 30 steps."),
 dict(id="C15", crate="hasset", title="Name and string hashes are Unreal's",
  statement="The hashes stored beside names in assets, and the CRCs used for strings, equal the values Unreal computes for the same text: case-insensitively where Unreal ignores case and exactly otherwise, for every text.",
  over=["inputs"], quant="all strings, ASCII and wide, of any length",
  why="Tests only see the hashes of names in fixtures, which are copied rather than recomputed.",
  files=["unreal_asset/unreal_asset_base/src/crc.rs"],
  mech=[("generate_hash / strihash_deprecated / strcrc32", "unreal_asset/unreal_asset_base/src/crc.rs")],
  observe=["hash values"],
  tech="property-based testing: differential against bitwise CRC reference implementations",
  note="Random exploration; the 64-bit CityHash is checked for case handling, not against a second implementation."),
 dict(id="C16", crate="hasset", title="Packages are read as stored and written back byte for byte",
  statement="Opening a .uasset/.umap package (single file or split into .uasset and .uexp) reports the header, name table, imports, export map entries, dependency lists and world tile info exactly as the file states them, for every supported engine version from 4.0 to 5.2, versioned or unversioned; writing the unmodified package gives byte-identical files, and writing it twice gives the same bytes.",
  over=["inputs"], quant="all well-formed packages of all engine versions, file versions and custom version sets",
  why="Tests round-trip a few dozen fixture files of a handful of engine versions; the header layout depends on some thirty version thresholds.",
  files=["unreal_asset/src/asset.rs", "unreal_asset/unreal_asset_base/src/reader/raw_reader.rs", "unreal_asset/unreal_asset_base/src/reader/raw_writer.rs", "unreal_asset/unreal_asset_base/src/custom_version.rs", "unreal_asset/unreal_asset_base/src/unversioned/mod.rs", "unreal_asset/unreal_asset_exports/src/base_export.rs"],
  mech=[("Asset::parse_header / write_header", "unreal_asset/src/asset.rs"), ("Asset::parse_data / write_data", "unreal_asset/src/asset.rs"), ("BaseExport read / write", "unreal_asset/unreal_asset_exports/src/base_export.rs")],
  observe=["fields of Asset, AssetData, imports and base exports", "bytes written by write_data"],
  tech="property-based testing: packages from an independent encoder, compared with the model value and byte for byte after rewriting",
  note="Random exploration of packages with up to 8 exports; layouts in the order the editor writes them; see DESIGN.md for packages that are not generated."),
 dict(id="C17", crate="hasset", title="Basic property values survive reading and writing",
  statement="Every tagged property holding a basic value (booleans, all integer widths, floats bit for bit, names with numbers, strings, texts with any history, objects, soft objects, delegates, bytes, enums, and properties of unknown type) is read with exactly the stored name, duplication index, property GUID and value, and written back to exactly the stored bytes, in every engine version.",
  over=["inputs"], quant="all basic property types, values and engine versions",
  why="Fixtures contain few value types and no extreme values, and the encoding differs between versions.",
  files=["unreal_asset/unreal_asset_properties/src/lib.rs", "unreal_asset/unreal_asset_properties/src/int_property.rs", "unreal_asset/unreal_asset_properties/src/str_property.rs", "unreal_asset/unreal_asset_properties/src/object_property.rs", "unreal_asset/unreal_asset_properties/src/enum_property.rs", "unreal_asset/unreal_asset_properties/src/delegate_property.rs"],
  mech=[("Property::new / Property::write", "unreal_asset/unreal_asset_properties/src/lib.rs"), ("ByteProperty, TextProperty, SoftObjectProperty, ...", "unreal_asset/unreal_asset_properties/src")],
  observe=["property values of normal exports", "bytes written by write_data"],
  tech="property-based testing: generated property lists from an independent encoder, compared with the model value and byte for byte after rewriting",
  note="Random exploration; up to 40 properties per package."),
 dict(id="C18", crate="hasset", title="Binary structs survive reading and writing",
  statement="Every struct type that is stored in its own binary form (vectors and other math types in single or double precision, colors, GUIDs, dates, soft paths, curves, material inputs, gameplay tags, per-platform values, samplers, cloth, font, Niagara and movie scene structs, ...) is read with exactly the stored field values and written back to exactly the stored bytes with the right length in its tag, in every engine and custom version; other struct types are read as property lists.",
  over=["inputs"], quant="all custom struct types, field values and engine and custom versions",
  why="Fixtures hold few of the more than fifty struct types, mostly with default values.",
  files=["unreal_asset/unreal_asset_properties/src/struct_property.rs", "unreal_asset/unreal_asset_properties/src/vector_property.rs", "unreal_asset/unreal_asset_properties/src/color_property.rs", "unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs", "unreal_asset/unreal_asset_properties/src/material_input_property.rs", "unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs"],
  mech=[("StructProperty::new / write", "unreal_asset/unreal_asset_properties/src/struct_property.rs"), ("the custom struct readers and writers", "unreal_asset/unreal_asset_properties/src")],
  observe=["struct values of properties and data table rows", "bytes written by write_data"],
  tech="property-based testing: generated structs from an independent encoder, compared with the model value and byte for byte after rewriting",
  note="Random exploration; list members of structs have up to 4 elements; font data has no public fields and is compared by its bytes only."),
 dict(id="C19", crate="hasset", title="Containers survive reading and writing",
  statement="Arrays, sets, maps and structs (nested, empty, with removed elements, with elements of any supported type, and with struct keys or values whose type is known by default or learned from class definitions earlier in the package) are read with exactly the stored elements in order and written back to exactly the stored bytes, in every engine version.",
  over=["inputs"], quant="all container properties and nestings, element types and engine versions",
  why="Fixtures hold few container shapes; removed keys, inner tags and learned map types hardly occur.",
  files=["unreal_asset/unreal_asset_properties/src/array_property.rs", "unreal_asset/unreal_asset_properties/src/set_property.rs", "unreal_asset/unreal_asset_properties/src/map_property.rs", "unreal_asset/unreal_asset_properties/src/struct_property.rs", "unreal_asset/unreal_asset_exports/src/class_export.rs"],
  mech=[("ArrayProperty, SetProperty, MapProperty", "unreal_asset/unreal_asset_properties/src"), ("map struct type overrides", "unreal_asset/unreal_asset_properties/src/map_property.rs")],
  observe=["container values of exports", "bytes written by write_data"],
  tech="property-based testing: generated nested containers from an independent encoder, compared with the model value and byte for byte after rewriting",
  note="Random exploration; nesting to depth 2, containers up to 6 elements."),
 dict(id="C20", crate="hasset", title="Every export kind survives reading and writing",
  statement="Exports of every kind (normal objects, levels, worlds, user defined structs, string tables, enums, functions, data tables, classes, property definitions in both the old and the new form, and exports that cannot be parsed and are kept raw) are recognised by their class, read with exactly the stored content including trailing data, and written back to exactly the stored bytes, in every engine version.",
  over=["inputs"], quant="all export kinds, contents and engine versions",
  why="Fixtures hold few exports of each kind and of few engine versions.",
  files=["unreal_asset/unreal_asset_exports/src/lib.rs", "unreal_asset/unreal_asset_exports/src/class_export.rs", "unreal_asset/unreal_asset_exports/src/level_export.rs", "unreal_asset/unreal_asset_exports/src/data_table_export.rs", "unreal_asset/unreal_asset_exports/src/enum_export.rs", "unreal_asset/unreal_asset_exports/src/struct_export.rs", "unreal_asset/unreal_asset_exports/src/string_table_export.rs", "unreal_asset/unreal_asset_exports/src/properties/fproperty.rs", "unreal_asset/unreal_asset_exports/src/properties/uproperty.rs", "unreal_asset/src/asset.rs"],
  mech=[("Asset::read_export", "unreal_asset/src/asset.rs"), ("the export types' from_base / write", "unreal_asset/unreal_asset_exports/src")],
  observe=["the kind and fields of exports", "bytes written by write_data"],
  tech="property-based testing: generated exports from an independent encoder, compared with the model value and byte for byte after rewriting",
  note="Random exploration; script bytecode is covered by its own property."),
 dict(id="C21", crate="hasset", title="Edited packages are written with exactly the edited content",
  statement="After any history of edits to an opened package (setting, inserting, removing, duplicating, renaming and reordering properties, array, set and map entries, table rows, actors and enum entries; adding names, imports and exports; renaming names in place; changing export map fields, dependencies and header fields) the written files open again and hold exactly the edited content: every import, export map entry, property value and header field as edited, nothing else changed. Existing names keep their order, missing names are added once, export extents are contiguous and end at the end of the data, writing a second time gives the same bytes, and rewriting the re-read package gives the same bytes.",
  over=["inputs", "histories"], quant="all packages and all histories of edits through the public interface",
  why="Edits interact: names, offsets, sizes and counts all over the file depend on every other part, and the tests make a handful of single edits.",
  files=["unreal_asset/src/asset.rs", "unreal_asset/src/asset_data.rs", "unreal_asset/unreal_asset_base/src/containers/name_map.rs", "unreal_asset/unreal_asset_properties/src/lib.rs", "unreal_asset/unreal_asset_properties/src/array_property.rs", "unreal_asset/unreal_asset_properties/src/map_property.rs", "unreal_asset/unreal_asset_exports/src/lib.rs"],
  mech=[("Asset::write_data", "unreal_asset/src/asset.rs"), ("NameMap::add_fname", "unreal_asset/unreal_asset_base/src/containers/name_map.rs"), ("Property::write", "unreal_asset/unreal_asset_properties/src/lib.rs")],
  observe=["bytes written by write_data", "the Asset read back from them"],
  tech="stateful property-based testing: generated edit histories applied to the Asset and to a model in parallel, compared before writing and after re-reading; shrinking",
  note="Random exploration of histories of up to 16 edits on packages of up to 4 exports."),
 dict(id="C22", crate="hasset", title="Exports and properties can be moved between packages",
  statement="An export or property cloned from one package and added to another (with its class import added and rebuild_name_map called) has the same content there as in its origin: all names it contains are entered into the name table of the new package, its values are unchanged, the other content of the package is unaffected, and the written package opens with the content of both.",
  over=["inputs", "histories"], quant="all pairs of packages of one engine version and all histories of transfers and edits",
  why="Names are indices into the name table of their own package; a transfer has to reach every name in every property and export type, of which tests cover one.",
  files=["unreal_asset/src/asset.rs", "unreal_asset/unreal_asset_base/src/types/fname.rs", "unreal_asset/unreal_asset_base/src/containers/name_map.rs", "unreal_asset/unreal_asset_proc_macro/src/lib.rs"],
  mech=[("Asset::rebuild_name_map", "unreal_asset/src/asset.rs"), ("FNameContainer::traverse_fnames", "unreal_asset/unreal_asset_base/src/types/fname.rs")],
  observe=["name table and content of the written package"],
  tech="stateful property-based testing: generated transfer and edit histories over two generated packages against a model; shrinking",
  note="Random exploration; packages of one engine version; class, data table and learned map types are not transferred."),
 dict(id="C23", crate="hasset", title="Imports and exports are found by index and by content",
  statement="get_import, get_export and get_export_mut give exactly the import or export a package index denotes (import -n is the n-th import, export n the n-th export, 0 and everything beyond the tables nothing) for every 32-bit index without panicking; add_import returns the index of the import it appended; find_import and find_import_no_index return the index of the first import whose class package, class name, (outer index) and object name are those asked for, and nothing if there is none; get_class_export gives the first class export; the base and normal parts of an export are the same through shared and mutable access; package indices convert between import and export positions and classify as import, export or null consistently.",
  over=["inputs", "histories"], quant="all packages, all 32-bit package indices, all histories of added imports and all searches",
  why="Off-by-one faults at the table ends, and searches that compare one part too few, show only with tables holding near-duplicates and indices at and beyond their ends.",
  files=["unreal_asset/src/asset.rs", "unreal_asset/unreal_asset_base/src/types/mod.rs", "unreal_asset/src/asset_data.rs"],
  mech=[("Asset::get_import", "unreal_asset/src/asset.rs"), ("Asset::find_import", "unreal_asset/src/asset.rs"), ("Asset::add_import", "unreal_asset/src/asset.rs")],
  observe=["return values of the lookups"],
  tech="property-based testing: generated packages, import histories and queries against a list model; shrinking",
  note="Random exploration; PackageIndex::from_export(i32::MAX), which denotes no export, is not asked for."),
 dict(id="C24", crate="hasset", title="AC7 decryption inverts encryption and follows the file name",
  statement="Encrypting an asset and its bulk data with the key of a file name gives the Ace Combat 7 form of it (ACE7 in place of the package magic, every further byte of the asset and then of the bulk data xored with the next byte of the key stream that starts at the position derived from the upper-cased name) and decrypting with the key of the same name gives back the bytes that were encrypted; the key and the output are functions of the name and the input alone.",
  over=["inputs"], quant="all file names and all contents of four bytes or more",
  why="The key walks a table with two cursors that wrap at 217 and 1024; errors in it occur after certain lengths and for certain names only, while the tests decrypt single files.",
  files=["unreal_asset/src/ac7.rs"],
  mech=[("ac7::decrypt", "unreal_asset/src/ac7.rs"), ("AC7XorKey", "unreal_asset/src/ac7.rs")],
  observe=["encrypted and decrypted bytes"],
  tech="property-based testing: independent reference cipher and round trip over generated names and contents; shrinking",
  note="Random exploration; contents up to a few thousand bytes (several periods of the key)."),
 dict(id="C25", crate="hasset", title="Kismet scripts survive reading and writing byte for byte",
  statement="The script of a function or class export is read into the expressions it consists of, with their operands, and written back byte for byte, including both recorded sizes: the size on disk and the size in the memory of the engine as Unreal computes it for each expression; a script the library cannot decode is kept as raw bytes and written unchanged.",
  over=["inputs"], quant="all scripts built from the expressions of the engine, nested to any depth, in every supported engine version",
  why="There are over a hundred expressions, each with its own layout by version and its own in-memory size; the tests compare a few assets which hold some of them.",
  files=["unreal_asset/unreal_asset_kismet/src/lib.rs", "unreal_asset/unreal_asset_exports/src/struct_export.rs"],
  mech=[("KismetExpression::new", "unreal_asset/unreal_asset_kismet/src/lib.rs"), ("KismetExpression::write", "unreal_asset/unreal_asset_kismet/src/lib.rs"), ("StructExport::read_bytecode", "unreal_asset/unreal_asset_exports/src/struct_export.rs")],
  observe=["decoded expressions", "bytes of the written package"],
  tech="property-based testing: generated scripts encoded by an independent model of Unreal's script serialization, compared after reading and after writing; shrinking",
  note="Random exploration; scripts up to a few dozen expressions; list-end tokens inside lists are not generated."),
 dict(id="C26", crate="hasset", title="Asset registries survive reading, editing and writing",
  statement="An asset registry file of the versions RemovedMD5Hash to AddedDependencyFlags is read into the assets (names, tags, chunk ids, flags), dependency nodes and package data it holds and written back byte for byte; after assets, packages, tags, identifiers, dependencies or names have been added, removed, moved or changed, the written file holds exactly the changed content and can be read again; adding a name returns its index in the name table, existing names are not added twice.",
  over=["inputs", "histories"], quant="all registries of these versions and all histories of edits",
  why="There is no test of the registry; its layout depends on the version and its parts refer to each other by index and offset.",
  files=["unreal_asset/unreal_asset_registry/src/lib.rs", "unreal_asset/unreal_asset_registry/src/objects/depends_node.rs", "unreal_asset/unreal_asset_registry/src/objects/asset_data.rs", "unreal_asset/unreal_asset_registry/src/objects/asset_package_data.rs", "unreal_asset/unreal_asset_registry/src/name_table_reader.rs"],
  mech=[("AssetRegistryState::new", "unreal_asset/unreal_asset_registry/src/lib.rs"), ("AssetRegistryState::write", "unreal_asset/unreal_asset_registry/src/lib.rs"), ("DependsNode::load_dependencies_before_flags", "unreal_asset/unreal_asset_registry/src/objects/depends_node.rs")],
  observe=["content of the registry read", "bytes written"],
  tech="property-based testing: generated registries from an independent encoder and generated edit histories against a model; shrinking",
  note="Random exploration; registries with flagged dependencies are a known finding (refused), those of FixedTags and later are not supported by the library."),
 dict(id="C27", crate="hasset", title="Damaged packages and registries never crash the reader or the writer",
  statement="Opening a package (asset with or without bulk file) or an asset registry whose bytes have been damaged in any way (bytes or fields changed, parts cut off, removed or inserted) either succeeds or returns an error: it does not panic, overflow, or allocate memory for data that is not there; and writing what was opened does not panic either.",
  over=["inputs", "fault_sequences"], quant="all damaged packages and registries, in every supported engine version",
  why="A mod manager opens files made by others; there is a count, an offset or an index in nearly every line of the format and tests only open intact files.",
  files=["unreal_asset/src/asset.rs", "unreal_asset/src/asset_data.rs", "unreal_asset/unreal_asset_base/src/reader/archive_reader.rs", "unreal_asset/unreal_asset_properties/src/lib.rs", "unreal_asset/unreal_asset_exports/src/lib.rs", "unreal_asset/unreal_asset_kismet/src/lib.rs", "unreal_asset/unreal_asset_registry/src/lib.rs"],
  mech=[("Asset::new", "unreal_asset/src/asset.rs"), ("ArchiveReader::read_array_with_length", "unreal_asset/unreal_asset_base/src/reader/archive_reader.rs"), ("AssetRegistryState::new", "unreal_asset/unreal_asset_registry/src/lib.rs")],
  observe=["panics and aborts while opening and writing", "size of allocations"],
  tech="fuzzing: structure-aware mutation of generated valid files, with arithmetic checks and an allocation limit as the oracle; shrinking",
  note="Random exploration of one to four damages per file; no bound on time is asserted."),
 dict(id="C28", crate="hasset", title="Mapping files are read and searched as they are, compressed blocks are unpacked",
  statement="A .usmap mapping file of any version, uncompressed or compressed with brotli or zstandard, is read into exactly the names, enums, schemas, properties (one entry per element of a static array, with its schema and array index), versions and module paths it holds; a property is found by its name, duplication index and ancestry in the first schema of the inheritance chain that has it, together with its index over the whole chain, and an array element is found as its array; a damaged file is refused or read but never crashes the reader. Blocks compressed with each supported method unpack to the bytes that were packed, and unknown methods and damaged blocks give an error and not a crash.",
  over=["inputs"], quant="all mapping files, all lookups in them, all blocks of all methods",
  why="There is no test of the mappings; indices run over inheritance chains, gaps and static arrays.",
  files=["unreal_asset/unreal_asset_base/src/unversioned/mod.rs", "unreal_asset/unreal_asset_base/src/unversioned/usmap_reader.rs", "unreal_asset/unreal_asset_base/src/unversioned/properties/mod.rs", "unreal_asset/unreal_asset_base/src/compression/mod.rs"],
  mech=[("Usmap::parse_data", "unreal_asset/unreal_asset_base/src/unversioned/mod.rs"), ("Usmap::get_property_with_duplication_index", "unreal_asset/unreal_asset_base/src/unversioned/mod.rs"), ("compression::decompress", "unreal_asset/unreal_asset_base/src/compression/mod.rs")],
  observe=["content of the mappings read", "results of lookups", "unpacked bytes"],
  tech="property-based testing: generated mapping files from an independent encoder against a list model, mutated files, and pack/unpack round trips; shrinking",
  note="Random exploration; Oodle is not supported in this build and unknown names, which the library looks up as their parents, are not asked for below the first level."),
 dict(id="C29", crate="hinteg", title="The integrated pak lists the mods and holds what the game needs",
  statement="Integrating a list of mods writes the integrated pak with exactly: a list of mods with one row per given file mod in the given order, then per core mod and per switched-on optional mod, each holding the name, author, description, version, game build, sync mode and homepage of its metadata (empty when missing, server and client when no sync mode is given); statics holding the integrator version and the refuse flag; the files that come with the integrator; its metadata; and what dynamic mods and handlers put there. Core mods, and optional mods whose id is among the given mods, are written beside it; an older integrated pak is replaced as a whole. Without mods no integrated pak is written. Without a game pak, or when a given mod's pak is missing, a pak or metadata is damaged, a core mod cannot be written or a handler or dynamic mod fails, an error is returned and an existing integrated pak stays as it was; when the integrated pak cannot be written to the end, an error is returned too. Files of the game and of the mods are never changed.",
  over=["inputs", "fault_sequences"], quant="all lists of mods, all metadata, all configurations, all single failures",
  why="The integrator has no tests at all; what it writes is a binary table in a package in a pak.",
  files=["unreal_mod_integrator/src/lib.rs", "unreal_mod_integrator/src/helpers.rs", "unreal_mod_integrator/src/assets.rs"],
  mech=[("integrate_mods", "unreal_mod_integrator/src/lib.rs"), ("bake_mod_data", "unreal_mod_integrator/src/lib.rs"), ("bake_integrator_data", "unreal_mod_integrator/src/lib.rs")],
  observe=["entries and content of the integrated pak", "files in the scratch directories", "result and error text"],
  tech="property-based testing: generated game directories, mod paks and configurations in scratch directories against a model of the output; one injected fault per failure case; shrinking",
  note="Random exploration. The integrator is compiled from /repo with stand-ins for the cooked assets its build script fetches from the network; UE 4.23, the only release it supports."),
 dict(id="C30", crate="hinteg", title="Handlers get every mod's entries and find packages by precedence",
  statement="During an integration every dynamic mod is called once in the given order and after them every handler is called once, with the configuration's data, the integrated pak so far, all game and mod paks, and the values all mods (in order) give under the handler's name; what they put into the integrated pak is in the written pak. Looking up a package gives the one of the integrated pak, otherwise of the first mod pak that has it, otherwise of the first game pak that has it, with its export data from the same place, otherwise the error that it is not found; a package written into the integrated pak is the one found from then on.",
  over=["inputs", "histories"], quant="all lists of mods, handlers and dynamic mods, all distributions of packages over paks, all sequences of lookups and writes",
  why="The integrator has no tests; edits of several mods to the same package add up only if each lookup finds the latest.",
  files=["unreal_mod_integrator/src/lib.rs", "unreal_mod_integrator/src/helpers.rs"],
  mech=[("integrate_mods", "unreal_mod_integrator/src/lib.rs"), ("get_asset", "unreal_mod_integrator/src/helpers.rs"), ("write_asset", "unreal_mod_integrator/src/helpers.rs")],
  observe=["arguments of each call", "content of the package found", "content of the integrated pak"],
  tech="property-based testing: recorded calls against a model, and generated sequences of lookups and writes over layered paks against a model; shrinking",
  note="Random exploration."),
 dict(id="C31", crate="hinteg", title="Persistent actors are added to each map once, with their components",
  statement="Every map named by any mod gets every persistent actor named by any mod, once per map however many mods name the map: the written map has all its old imports and exports unchanged, and behind them for each actor (named by package or by package and class) an export in the level of the actor's blueprint class and default object, listed last among the level's actors, and for each node of the actor's construction script a component of the node's class, name and parent, inside the actor and listed in its created components and under its own name, with DefaultSceneRoot as the root component. All references and names in the written map resolve in the map itself.",
  over=["inputs"], quant="all maps, all actors and construction scripts, all combinations of mods",
  why="No test; the code copies references between three packages with different import and name tables.",
  files=["unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs", "unreal_mod_integrator/src/lib.rs"],
  mech=[("handle_persistent_actors", "unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs")],
  observe=["imports, exports and level of the written maps"],
  tech="property-based testing: generated maps and actors from encoders of our own, integrated and compared with a model of the resulting map; shrinking",
  note="Random exploration; component classes are native (imported), nodes have a class and a unique name."),
 dict(id="C32", crate="hman", title="Mod files are listed as they are; dropping and removing never loses others",
  statement="At start the mod manager lists exactly the mods whose valid files are in the Mods folder, with all their versions, the highest in use and the details (name, author, description, game build, sync, homepage, download, dependencies, size) of the version in use; every file that is not a valid mod (name, archive, metadata, id or version wrong) is left alone and reported in one warning naming it, and nothing crashes. Dropping files copies the valid ones into the Mods folder and lists and enables new mods; invalid ones leave a warning and nothing else, an installed mod is never lost or changed by dropping a damaged or the same file again. Removing a mod deletes exactly its own files. A version chosen by the user stays chosen.",
  over=["inputs", "histories"], quant="all contents of the Mods folder and all sequences of dropping, removing, enabling and choosing versions",
  why="The mod manager has no tests; what it finds in the folder and what users drop are files made by others.",
  files=["unreal_mod_manager/src/background_work.rs", "unreal_mod_manager/src/mod_processing/mod.rs", "unreal_mod_manager/src/mod_processing/pakfile_reading.rs", "unreal_mod_manager/src/mod_processing/version_handling.rs", "unreal_mod_manager/src/mod_processing/verify.rs", "unreal_mod_manager/src/version.rs"],
  mech=[("background_work", "unreal_mod_manager/src/background_work.rs"), ("read_pak_files", "unreal_mod_manager/src/mod_processing/pakfile_reading.rs"), ("auto_pick_versions / set_mod_data_from_version", "unreal_mod_manager/src/mod_processing/version_handling.rs")],
  observe=["the data shown in the window", "warnings", "files of the Mods folder"],
  tech="stateful model-based testing: the real background thread is driven with generated folders and generated user actions against a model of list and folder; shrinking",
  note="Random exploration of up to four actions; the window itself is left out and the user's directories are stand-ins inside a scratch directory."),
 dict(id="C33", crate="hman", title="Settings are found again after a restart; damaged settings do no harm",
  statement="What is saved (platform, refuse flag, per mod whether it is enabled and which version is chosen, trusted mods, profiles) is what the next start finds; a mod set to the latest version follows it. Settings of earlier releases are understood. Settings that name unknown mods, versions or platforms are ignored in that respect only: an unknown platform falls back to Steam or the first one, a version that does not exist is not chosen. Settings files that are damaged in any way, or missing, never keep the mod manager from starting, and the mods are listed nevertheless. The selected platform determines install path, paks path and game build.",
  over=["inputs", "histories", "fault_sequences"], quant="all settings, all sets of installed mods and platforms, all damages to the settings file",
  why="No test; settings outlive releases and files they refer to.",
  files=["unreal_mod_manager/src/mod_config.rs", "unreal_mod_manager/src/profile.rs", "unreal_mod_manager/src/lib.rs", "unreal_mod_manager/src/background_work.rs"],
  mech=[("load_config", "unreal_mod_manager/src/mod_config.rs"), ("write_config", "unreal_mod_manager/src/mod_config.rs"), ("parse_profile_config", "unreal_mod_manager/src/profile.rs"), ("ModLoaderAppData::set_game_platform", "unreal_mod_manager/src/lib.rs")],
  observe=["the data shown after a restart", "selected platform and paths"],
  tech="property-based testing: generated settings files and save/restart histories of the real background thread against a model, and mutated settings files; shrinking",
  note="Random exploration; Windows-only platform lookup is not exercised."),
 dict(id="C34", crate="hman", title="Dependencies resolve to versions that meet every requirement, or are reported",
  statement="For every set of mods with versions and dependencies added in any number of rounds, the mods asked for are exactly those the added mods depend on, each with the intersection of all requirements on it and all index files given for it; resolving picks for every mod one of its own known versions that meets every requirement, and reports every mod for which there is none, with exactly the mods that need it and what they require; the dependents of a mod are exactly the mods that depend on it. Nothing crashes, whatever the number of mods and requirements.",
  over=["inputs", "histories"], quant="all dependency graphs (cycles, self dependencies, repeated edges, unknown mods), requirements and rounds",
  why="No test; the graph is built incrementally from what is discovered while downloading.",
  files=["unreal_mod_manager/src/mod_processing/dependencies.rs"],
  mech=[("DependencyGraph::add_mods", "unreal_mod_manager/src/mod_processing/dependencies.rs"), ("DependencyGraph::validate_graph", "unreal_mod_manager/src/mod_processing/dependencies.rs"), ("intersect_requirements", "unreal_mod_manager/src/mod_processing/dependencies.rs")],
  observe=["mods and requirements asked for", "versions picked", "warnings", "dependents"],
  tech="property-based testing: generated graphs against a list model that evaluates every requirement separately; shrinking",
  note="Random exploration of graphs of up to six mods, sometimes of 150; single requirements are evaluated with the semver crate."),
 dict(id="C35", crate="hman", title="Index files add the versions they offer and do no harm",
  statement="When a mod in use names an index file, the versions the index file offers under a proper file name are listed beside the local ones with their addresses, local versions keep their files, and the latest version it names is put in use unless the user chose another one. An index file that cannot be had, is cut short, is not valid, lacks the mod, names a version or file that is none, or a latest version that is neither offered nor there, is reported in a warning naming the mod, never crashes anything, and everything else of the mod stays as it was; nothing is downloaded unasked and the Mods folder does not change.",
  over=["inputs", "fault_sequences", "histories"], quant="all index files, all failures of the server, all sets of local versions and sequences of start and drop",
  why="No test; index files come from other people's servers.",
  files=["unreal_mod_manager/src/mod_processing/index_file.rs", "unreal_mod_manager/src/mod_processing/mod.rs", "unreal_mod_manager/src/mod_processing/verify.rs"],
  mech=[("download_index_file", "unreal_mod_manager/src/mod_processing/index_file.rs"), ("insert_index_file_data", "unreal_mod_manager/src/mod_processing/index_file.rs")],
  observe=["versions, addresses and version in use shown", "warnings", "requests made to the server", "files of the Mods folder"],
  tech="property-based testing with fault injection: generated index files and failures served by a loopback web server to the real background thread, against a model; shrinking",
  note="Random exploration; plain HTTP on the loopback network."),
 dict(id="C36", crate="hman", title="Integrating installs exactly the enabled mods and what they need",
  statement="After an integration the game's Paks folder holds nothing but: the file of the chosen version of every enabled mod, byte for byte (downloaded first when it is only offered), all core mods, the dependencies, and the integrated pak whose list names exactly these mods in these versions, each once, files in the order of their priorities, and which holds the user's refuse setting. Everything an installed mod needs is installed in a version that meets the requirement, or a warning reports it; when everything is on offer and no requirements conflict, everything needed is installed and there is no warning. Mods with libraries whose content is not trusted are listed. Downloaded dependencies are kept in the Mods folder, enabled, and the settings are saved with what is now enabled. When an enabled mod cannot be had or there is no game, the integration is marked as failed with a warning. Whatever servers answer: no crash, no endless downloading, no file of the Mods folder lost, changed or added other than valid offered mods (and none of an enabled mod changed), no earlier warning lost, no file written elsewhere. With nothing enabled the Paks folder is emptied.",
  over=["inputs", "fault_sequences", "histories"], quant="all sets of local, offered and baked mods with dependencies (cycles, conflicts, missing), all choices of the user, all failures of downloads",
  why="No test; this is what the mod manager is for, and it deletes and writes files on the strength of what servers and mod authors say.",
  files=["unreal_mod_manager/src/background_work.rs", "unreal_mod_manager/src/mod_processing/dependencies.rs", "unreal_mod_manager/src/mod_processing/index_file.rs", "unreal_mod_integrator/src/lib.rs"],
  mech=[("background_work (Integrate)", "unreal_mod_manager/src/background_work.rs"), ("download_mod", "unreal_mod_manager/src/background_work.rs"), ("DependencyGraph", "unreal_mod_manager/src/mod_processing/dependencies.rs"), ("integrate_mods", "unreal_mod_integrator/src/lib.rs")],
  observe=["files of the Paks and Mods folders and of the rest of the scratch directory", "list of mods inside the integrated pak", "warnings, failed flag, enabled mods, mods not trusted"],
  tech="property-based testing with fault injection: generated worlds of mods and servers, driven through the real background thread and integrator, judged by invariants over the resulting folders; shrinking",
  note="Random exploration; which of several fitting versions of a dependency is installed is not specified. Stand-ins: window, user directories, cooked assets; the cpp loader feature is off."),
 dict(id="C37", crate="hbase", title="Pak files survive short transfers and report every failed one",
  statement="Writing and reading pak files gives the same bytes and entries however few bytes the underlying file takes or gives at a time and however often it is interrupted. When a read, write, seek or flush of the underlying file fails, or the disk fills up, some call reports an error, also behind a buffered writer: no call returns wrong data, no archive that did not reach the file is reported as finished, and nothing panics. After a failed call the entry in question is not in the archive, can be written again, and all other entries are intact; a failed read can be repeated.",
  over=["inputs", "fault_sequences"], quant="all archives, all transfer sizes and interruptions, all points at which one or all further operations fail, all sizes at which the disk is full",
  why="The tests use files and buffers that never fail or transfer less than asked.",
  files=["unreal_pak/src/pakwriter.rs", "unreal_pak/src/pakreader.rs", "unreal_pak/src/pakmemory.rs", "unreal_pak/src/entry.rs", "unreal_pak/src/index.rs", "unreal_pak/src/header.rs"],
  mech=[("PakWriter::finish_write", "unreal_pak/src/pakwriter.rs"), ("write_entry / read_entry", "unreal_pak/src/entry.rs"), ("Index::read / Index::write", "unreal_pak/src/index.rs")],
  observe=["results of the calls", "bytes that reached the file", "entries read back"],
  tech="property-based testing with fault injection: generated archives on an in-memory file with generated fault plans, against the fault-free run and an independent parser; shrinking",
  note="Random exploration of fault plans with one failing operation (once or for good), a capacity, or a failing flush, combined with short transfers and interruptions."),
 dict(id="C38", crate="hasset", title="Packages survive short transfers and report every failed one",
  statement="Opening and writing packages and opening asset registries gives the same result however few bytes the underlying files take or give at a time and however often they are interrupted. When a read fails, opening reports an error or nothing is lost (the package is written back byte for byte); when a write fails or the disk fills up, writing reports an error; nothing panics, and the package can be written again, unchanged, after a failed attempt.",
  over=["inputs", "fault_sequences"], quant="all packages and registries, all transfer sizes and interruptions, all points at which one or all further reads or writes fail, all sizes at which the disk is full",
  why="The tests use buffers that never fail or transfer less than asked.",
  files=["unreal_asset/src/asset.rs", "unreal_asset/unreal_asset_base/src/reader/raw_reader.rs", "unreal_asset/unreal_asset_base/src/reader/raw_writer.rs", "unreal_asset/unreal_asset_base/src/containers/chain.rs", "unreal_asset/unreal_asset_registry/src/lib.rs"],
  mech=[("Asset::new", "unreal_asset/src/asset.rs"), ("Asset::write_data", "unreal_asset/src/asset.rs"), ("Chain", "unreal_asset/unreal_asset_base/src/containers/chain.rs"), ("RawReader", "unreal_asset/unreal_asset_base/src/reader/raw_reader.rs")],
  observe=["results of the calls", "bytes that reached the files", "values read"],
  tech="property-based testing with fault injection: generated packages on in-memory files with generated fault plans, against the fault-free values and bytes; shrinking",
  note="Random exploration; failing seeks are not injected (asking a file for its position is taken not to fail). Exports that cannot be decoded are kept as raw bytes by design, which absorbs a single failed read inside an export without loss."),
 dict(id="C39", crate="hboot", title="The loader gets exactly the native libraries the mods list",
  statement="Bootstrapping leaves in the extraction directory exactly the libraries which the metadata of the mod paks in the mods directory lists under /Game/, each under its base name and with the bytes of its entry, whatever was there before; entries of a pak that are not listed, and listed paths outside of /Game/, are not unpacked, and paks without metadata are passed over. A mod that is no pak, damaged metadata, a listed library which the pak does not have and a directory that cannot be made are reported as errors. Nothing outside of the extraction directory is changed whatever names the mods list, nothing panics, and the loader's configuration survives being written as JSON and read back.",
  over=["inputs", "histories"], quant="all directories of mods, all metadata and entry names, all earlier contents of the extraction directory, all configurations of the loader",
  why="The crate has no tests; it deletes and writes files on the strength of names that mod authors choose.",
  files=["unreal_cpp_bootstrapper/src/lib.rs", "unreal_cpp_bootstrapper/src/config.rs", "unreal_helpers/src/path.rs"],
  mech=[("bootstrap", "unreal_cpp_bootstrapper/src/lib.rs"), ("UE4SSConfig", "unreal_cpp_bootstrapper/src/config.rs"), ("game_to_absolute", "unreal_helpers/src/path.rs")],
  observe=["files of the extraction directory and of everything around it", "result of the call", "configuration read back"],
  tech="property-based testing: generated histories of mods directories in scratch directories against a model of the extraction directory; injected faults; round trip of the configuration; shrinking",
  note="Random exploration. The crate is compiled from /repo's sources with stand-ins for the two libraries its build script takes from a C++ build. When several mods list libraries of one base name, either content is accepted (the order of a directory is the file system's)."),
 dict(id="C40", crate="hboot", title="Downloads of release files are complete or reported",
  statement="Downloading a release asset into a file gives exactly the bytes the server sent, through redirects and however they are cut into pieces, with every request naming an agent; an answer other than success, a transfer that ends early or is malformed, a server that does not answer, an invalid address and a file that cannot be written are reported as errors, never as success with other content. A release description is read with exactly its assets, unknown fields are passed over, and one without the needed fields is refused; nothing panics.",
  over=["inputs", "fault_sequences"], quant="all contents, answers, redirects and cuts of the transfer, all descriptions of releases",
  why="The crate has no tests; whatever is downloaded here replaces the program itself.",
  files=["github_helpers/src/lib.rs"],
  mech=[("ReleaseAsset::download", "github_helpers/src/lib.rs"), ("Release", "github_helpers/src/lib.rs")],
  observe=["bytes of the file", "result of the call", "requests the server received"],
  tech="property-based testing with fault injection: a loopback web server playing generated answers, against a model of the result; shrinking",
  note="Random exploration. get_latest_release asks a fixed address on the network and is not reached; the description it would receive is decoded by the same types."),
]
NOT_APPLICABLE = []

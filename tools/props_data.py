T = "explicit TLA+ specification checked with TLC; model transitions executed on the code and recorded traces validated by TLC"

prop("C01", "Compound file keeps exactly the tree and contents its history says",
     "After any sequence of creating, opening, writing, moving, renaming, removing and recursively removing storages and streams, with the file closed and reopened at any points, the file holds exactly the paths, kinds, class ids, metadata and bytes that sequence implies, whatever the sector size, the backing file or the number of entries. An operation that is refused (missing path, existing target, non-empty storage, a storage moved into itself, an unusable or colliding name) changes nothing, and an accepted one changes nothing outside the entries it names.",
     ["histories", "inputs", "configurations"], "every finite sequence of namespace and stream operations, including refused ones and reopens, on 512 and 4096 byte sectors, in-memory, buffered and unbuffered files",
     "The tests run a handful of scripted sequences and read back what they wrote; interactions between moves, removals, entry reuse, cache eviction and reopening are unbounded in number.",
     ["src/aaf2/cfb.py", "src/aaf2/cache.py"],
     [("create/remove/move/rmtree/open", "src/aaf2/cfb.py CompoundFileBinary"), ("directory entry write-back and entry caches", "src/aaf2/cfb.py write_modified_dir_entries, read_dir_entry, listdir_dict")],
     [("tree", "path to kind, class id, metadata, contents", "directory sectors and streams")],
     ["CompoundFileBinary public methods", "bytes of the closed file"],
     T + " (CFB.tla)",
     "Exhaustive for two or three names at depth two inside the model, every model transition executed on the code; random and large histories (hundreds of storages) validated event by event. Trusts TLC, the harness's reader of the byte image and one open stream at a time.")

prop("C02", "Every sector of a saved compound file has exactly one owner",
     "In every file the library closes, each allocated sector and mini sector belongs to exactly one owner (directory, allocation tables, mini stream, or one stream), no owner's chain is shorter or longer than its size requires, nothing is allocated that nobody owns, and the header counts and table markers agree with that. This holds at every file size, including when the allocation table index outgrows the header and when the file passes 2 GB, where the reserved range-lock sector is never handed out.",
     ["histories", "inputs", "configurations"], "every sequence of writes, truncations, overwrites, removals and moves with closes in between, for both sector sizes and file sizes up to beyond 2 GB",
     "Tests read contents back through the same code; a double allocation or leak stays invisible until other data is written over it, and no test checks the tables.",
     ["src/aaf2/cfb.py"],
     [("free lists and table growth", "src/aaf2/cfb.py next_free_sect, next_free_minifat_sect, fat_chain_append, free_fat_chain"), ("tables written at close", "src/aaf2/cfb.py close, write_fat, write_difat, write_minifat")],
     [("allocation tables", "owner of each sector", "FAT, mini FAT, DIFAT")],
     ["bytes of the closed file"],
     "TLA+ well-formedness specification (CFBImage.tla) evaluated by TLC on every image written while executing the CFB model's transitions and random histories",
     "Images from all model transitions, random stream histories, files past the first and second DIFAT sector and one past 2 GB. Trusts TLC and the harness's own parser of the format.")

prop("C03", "Directory trees stay ordered, complete and balanced",
     "In every file the library closes, the entries of each storage form one search tree in the format's order (shorter names first, then case-insensitively by name) with no name twice, every entry in use is reachable exactly once and no unused entry is reachable. Trees built by the library satisfy the red-black rules, so their height stays logarithmic in the number of entries whatever the order of insertions and removals.",
     ["histories", "inputs"], "every order of insertions, removals and renames, from a few to hundreds of entries per storage",
     "Tests insert and remove a few fixed sequences and only check the search order, never colours, heights or reachability.",
     ["src/aaf2/cfb.py"],
     [("top-down insertion and removal", "src/aaf2/cfb.py DirEntry.insert, DirEntry.pop, jsw_single, jsw_double"), ("name order", "src/aaf2/cfb.py DirEntry.__lt__, __eq__")],
     [("sibling tree", "left, right, child links and colours", "directory sectors")],
     ["bytes of the closed file", "listdir, exists"],
     "TLA+ specification of directory trees (CFBImage.tla, CFB.tla) evaluated by TLC on every image written while executing model transitions and random insertion/removal orders",
     "Every small tree the model reaches, and random, ascending, descending and mixed orders with hundreds of entries. Trusts TLC and the harness's own parser of the format.")

prop("C04", "Streams read and write like files at every size",
     "A stream behaves like a byte file under any sequence of seeks, reads, writes and truncations: reads return exactly the bytes last written at those positions, growing by seeking or truncating past the end fills with zeros, and position and size are exact. Crossing the size at which storage switches between small and regular sectors, in either direction, changes no byte.",
     ["histories", "inputs", "configurations"], "all sequences of stream operations with sizes around 64, 512 and 4096 byte multiples and up to megabytes, for both sector sizes",
     "Tests write a few fixed sizes sequentially; the number of (size, position, length) combinations around the cut-over and cache boundaries is unbounded.",
     ["src/aaf2/cfb.py", "src/aaf2/cache.py"],
     [("read, write, seek, truncate, allocate", "src/aaf2/cfb.py Stream"), ("sector cache invalidation", "src/aaf2/cfb.py read_sector_data, Stream.write")],
     [("stream contents, size, position", "run-length encoded bytes", "Stream")],
     ["Stream methods", "bytes of the closed file"],
     T + " (CFB.tla, Runs.tla)",
     "All model transitions for sizes around 32/64 and 2048/4096, random histories with arbitrary sizes to megabytes. Trusts TLC; one open handle at a time.")

prop("C05", "Bounded caches drop only the least recently used entry, and only when full",
     "A bounded map returns for each key the value last stored under it, never loses a key while it has room or through the removal of another key, and when full makes room by dropping exactly the least recently stored or read key. It never holds more entries than its bound.",
     ["histories", "configurations"], "every sequence of stores, reads, membership tests and removals, for every bound",
     "The tests store a few keys in order; whether the recency order survives mixed removals and re-stores is a property of all sequences.",
     ["src/aaf2/cache.py"], [("circular list of slots", "src/aaf2/cache.py LRUCacheDict")],
     [("recency order", "keys from most to least recently used", "LRUCacheDict")],
     ["LRUCacheDict mapping methods"],
     T + " (LRU.tla)",
     "Complete state graph for bounds up to 4 (thorough 5) executed on the code; random histories at bounds to 60.")

prop("C06", "The object tree read back is exactly what the operations built",
     "For any sequence of adding, inserting, replacing, removing and reassigning objects in strong reference properties (single, vector, set), with saves, close/reopens, object cache evictions and dropped Python references at any points, reading the file yields exactly the objects, order and values that sequence implies. Every object has at most one owner and a removed or replaced object is detached and can be added elsewhere. A refused operation (wrong class, object of another file, object attached elsewhere, bad index or key) raises and changes nothing. Closing a file in which a required property is missing is refused.",
     ["histories", "inputs"], "every finite sequence of object operations on mobs, slots, components, effects, parameters, descriptors, locators, tagged values, essence data and definitions in one or two files",
     "Tests build a few fixed compositions and read them back; ownership, partial failure and the interplay of the live graph, the object cache and the file on disk depend on whole histories.",
     ["src/aaf2/properties.py", "src/aaf2/core.py", "src/aaf2/file.py"],
     [("strong references", "src/aaf2/properties.py StrongRefProperty, StrongRefVectorProperty, StrongRefSetProperty"), ("attach, detach, write-back", "src/aaf2/core.py AAFObject.attach, detach, write_properties"), ("object cache", "src/aaf2/file.py AAFObjectManager")],
     [("object graph", "owner and ordered members of every object", "properties and storages")],
     ["AAFObject and property public methods", "a second opening of the saved file"],
     T + " (Objects.tla)",
     "Complete model graphs of small universes (one vector pair, one set, one reference chain) executed on the code, random histories over all classes validated event by event. Trusts TLC and the labels the harness stores in each object's Generation property.")

prop("C08", "Copies are deep, independent and bring the definitions they need",
     "Copying an object, inside one file or into another, yields a detached tree equal to the original in class, values, order, keys and stream contents. It shares nothing with the original: later changes to either side, saves and reopens included, never show in the other. Weak references of a copy resolve in its own file: definitions the target lacks, and those they depend on in turn, are copied there exactly once, ones it has are reused, and nothing else in either file changes.",
     ["histories", "inputs"], "every object tree of the supported classes, every pair of files and every later sequence of operations on both sides",
     "Tests copy a few mobs once and compare; sharing and missing definitions show only for particular trees, target dictionaries and later edits.",
     ["src/aaf2/properties.py", "src/aaf2/core.py", "src/aaf2/dictionary.py"],
     [("copy of objects and properties", "src/aaf2/core.py AAFObject.copy, src/aaf2/properties.py *.copy"), ("definitions brought along", "src/aaf2/properties.py copy_weakref_target")],
     [("copies", "map from original to copied objects", "AAFObject.copy")],
     ["AAFObject.copy", "both files after further operations and reopening"],
     T + " (Objects.tla DoCopy, Brought)",
     "Model universes of copies within and across files including cyclic definitions, executed completely; random two and three file histories. Assumes every weak reference of the copied tree resolves.")

prop("C09", "Unique keys address exactly one object and weak references follow them",
     "In every set of keyed objects (mobs, essence data, definitions, parameters) a key finds exactly the member that carries it, for lookup, membership, iteration, removal and the mob and essence accessors, after any sequence of additions, removals, key changes, saves and reopens. A member never takes a key another member holds; adding an object whose key is present replaces that member. A weak reference always yields the definition of its own file with that key, in order, or fails when there is none; a weak reference set holds each once.",
     ["histories", "inputs"], "every sequence of key changes, additions, removals and weak reference edits, reopened at any points",
     "Tests look up keys of freshly built sets; stale index entries and table slots appear only after particular orders of change, save and reopen.",
     ["src/aaf2/properties.py", "src/aaf2/core.py", "src/aaf2/mobs.py", "src/aaf2/essence.py", "src/aaf2/content.py"],
     [("key index of sets", "src/aaf2/properties.py StrongRefSetProperty"), ("weak reference table", "src/aaf2/properties.py WeakRefProperty, WeakRefArrayProperty"), ("key changes", "src/aaf2/mobs.py Mob.mob_id, src/aaf2/essence.py EssenceData.mob_id")],
     [("key index", "key to member", "StrongRefSetProperty.references, objects")],
     ["set and weak reference methods", "SourceReference.mob, SourceMob.essence"],
     T + " (Objects.tla)",
     "Complete model graphs of a mob set, an essence set and definition references executed on the code; random histories with few and with many keys.")

prop("C07", "A saved AAF file is well formed to any reader",
     "Every file closed after edits is a well-formed AAF file: each object reachable from the root has one owner, carries its class id, all the required properties of its class and only properties its class defines, each in the stored form its declared type demands. The index of every vector and set names existing objects of the declared class, in order, with element numbers and keys that agree with the objects and a next free number above those in use. Weak references name the set and key property they point into. The file's own dictionary describes every class and property used. No temporary storage is left. A reader of the bytes alone finds what the history says.",
     ["histories", "inputs", "configurations"], "every file any sequence of object operations, saves and reopens produces, in one or two files, with 512 and 4096 byte sectors",
     "Tests read files back with the library that wrote them, so an error made by writer and reader alike, or tolerated by the reader, cannot be seen; the number of files is unbounded.",
     ["src/aaf2/properties.py", "src/aaf2/core.py", "src/aaf2/file.py", "src/aaf2/metadict.py"],
     [("property streams and indexes written", "src/aaf2/core.py AAFObject.write_properties, src/aaf2/properties.py write_index"), ("referenced property table", "src/aaf2/file.py write_reference_properties")],
     [("stored objects", "class, properties, indexes, references", "the bytes of the file")],
     ["bytes of the closed file"],
     "TLA+ well-formedness specification (AAFImage.tla) and object graph specification (Objects.tla) evaluated by TLC on what an independent reader finds in every file closed while executing the model's transitions and random histories",
     "Thousands of closed files per run. Trusts TLC and the harness's own reader of the object layer (harness/aafimg.py).")

prop("C10", "Reading changes nothing; a session publishes what it closes",
     "A file opened for reading refuses every operation that would change it, at the call, with the objects seen through it unchanged, and its bytes are the same after any session, closing included. Opening a missing or unreadable path for reading or update raises, creates nothing and leaves the bytes alone; opening for writing always starts empty; an unknown mode is refused. Closing a written file, by close() or by leaving a with block, publishes exactly what the session built, and a closed file refuses saving and closing again. Files without a path live in memory and touch no path.",
     ["histories", "inputs", "configurations"], "every sequence of reads and attempted changes in a read-only session, and every sequence of opening modes, edits, saves, closes and abandoned blocks on a path that holds nothing, junk or a file",
     "Tests open files for reading and read them; that no operation of any class, in any order, slips through needs all of them tried on all states.",
     ["src/aaf2/file.py", "src/aaf2/properties.py", "src/aaf2/core.py"],
     [("guard of changing operations", "src/aaf2/properties.py writeonly, src/aaf2/file.py AAFObjectManager.add_modified"), ("session life cycle", "src/aaf2/file.py AAFFile.__init__, save, close, __exit__")],
     [("session", "mode of each handle and content of the path", "AAFFile.mode, is_open")],
     ["outcome of every operation", "bytes of the path"],
     T + " (Session.tla, Objects.tla)",
     "Complete state graph of two handles on one path executed on the code; random object histories with read-only sessions in one and two files. Nothing is claimed of a file whose writing session ended by an exception.")


prop("C11", "A property holds the value last assigned, in the bytes its type prescribes",
     "For every class and every property of plain data, of any type the data model can build (integers of each size and sign, enumerations, extendible enumerations, records, fixed and variable arrays, sets, strings, identifiers, times, fractions, renamed types, values carrying their own type), a value the type can hold is accepted and reads back as that value, before and after saving and reopening, and the file holds exactly the bytes the type prescribes for it. A value the type cannot hold, or too large for a property, is refused and leaves the property as it was. Bytes another program stored read as the value they stand for. Changing a value after assigning or reading it changes no property, and no assignment touches another property or object.",
     ["inputs", "histories"], "every value of every type of every property of the data model and its extensions, and types built of one another; every order of assignments, removals, saves and reopens",
     "Tests write a few values of a few types; the types nest without bound and each has boundary values.",
     ["src/aaf2/types.py", "src/aaf2/properties.py", "src/aaf2/rational.py", "src/aaf2/utils.py", "src/aaf2/core.py"],
     [("encode and decode of each type", "src/aaf2/types.py TypeDefInt ... TypeDefIndirect"), ("assignment and removal", "src/aaf2/properties.py Property.value, src/aaf2/core.py AAFObject.__delitem__")],
     [("property values", "object and property to value", "property streams")],
     ["Property.value", "bytes of the closed file"],
     "TLA+ specification of types, values and stored bytes (Values.tla) model checked with TLC; histories of values recorded from the code validated event by event by TLC",
     "Every concrete class of the data model in turn plus a class with properties of 40 constructed types, seeded random values with boundary bias. Type descriptions come from the independent reader, not from the library. Strings without NUL and times without fractions of a second.")


prop("C12", "Declarations are kept exactly, unique, and travel with objects that need them",
     "Every writable file declares the whole AAF object model. Each class, property and type a program registers, a file declares or a copied object brings along keeps its identifier, name, parent, type, members and flags, found by identifier and by name, through any registrations, copies, saves and reopens; a definition a file has is never replaced. Two properties of a file never have the same local identifier, and one that is taken is refused. Names added to an enumeration stay, whatever file they came from. Objects keep their class and values under these declarations in every file they reach.",
     ["histories", "inputs", "configurations"], "every sequence of registrations, copies between two files whose dictionaries declare anything, saves and reopens, and every file of another program with other definitions and local identifiers",
     "Tests register a few extensions in new files; clashes of names and local identifiers between dictionaries appear only for particular pairs of files and orders.",
     ["src/aaf2/metadict.py", "src/aaf2/types.py", "src/aaf2/core.py", "src/aaf2/properties.py", "src/aaf2/model"],
     [("registration and reading of definitions", "src/aaf2/metadict.py MetaDictionary.register_classdef, register_typedef_model, read_properties"), ("local identifiers", "src/aaf2/metadict.py next_free_pid"), ("definitions brought by copies", "src/aaf2/metadict.py register_external_classdef, register_external_typedef")],
     [("meta dictionary", "identifier to definition of each file", "metadict.classdefs_by_auid, typedefs_by_auid, local_pids")],
     ["metadict public methods and definition objects", "bytes of the closed files"],
     "TLA+ specification of meta dictionaries (Meta.tla) model checked with TLC; histories of two files recorded from the code, and the built-in model as found in saved files, validated event by event by TLC",
     "200 (thorough 6000) seeded histories over small universes of classes, properties and types that share names and local identifiers, including files built by the harness itself. harness/model.json freezes the AAF model at the pinned commit; a file may declare more. Required properties are optional in the universes.")


prop("C13", "Positions, lengths, slot ids and mob references follow the timeline",
     "For any tree of segments a program builds and edits: a sequence places each component after the previous ones with transitions overlapping their neighbours; what is on at a time is the component (or transition) that covers it, at every time including exact cuts; the length of a slot and the clips made of it follow from its segment; a slot made without an id gets an unused one and a used one is refused; a clip's mob and slot are those it names, following it gives the chain of segments at its start; the mobs a mob depends on are listed once each, none before those it depends on itself, and the search ends even when mobs refer to each other; lists of mobs by kind hold exactly those mobs.",
     ["histories", "inputs"], "every composition AAF allows, of sequences, transitions, nested scopes, operation groups, selectors, essence groups, pulldowns, timecodes and clips in any number of mobs, every order of edits, and every time",
     "Tests ask for a few times in a few fixed sequences; exact cuts, nested and mutually referring mobs and slot ids with gaps arise only in particular combinations.",
     ["src/aaf2/components.py", "src/aaf2/mobs.py", "src/aaf2/mobslots.py", "src/aaf2/content.py"],
     [("positions and lookup by time", "src/aaf2/components.py Sequence.positions, index_at_time"), ("slot length and ids", "src/aaf2/mobslots.py TimelineMobSlot.length, src/aaf2/mobs.py create_timeline_slot"), ("references", "src/aaf2/mobs.py dependant_mobs, src/aaf2/components.py SourceReference, SourceClip.walk")],
     [("mobs", "key of each mob to its slots and segments", "content.mobs")],
     ["Sequence, MobSlot, Mob, SourceClip, Content methods"],
     "TLA+ specification of timelines and references (Timeline.tla) model checked with TLC; histories of compositions recorded from the code validated event by event by TLC",
     "160 (thorough 6000) seeded histories of 150 steps. No claim of looking up times in sequences AAF forbids (empty components, transitions at the ends, back to back or longer than their neighbours), nor of following clips that lead back to themselves.")


prop("C14", "Comments and attributes are ordered maps of typed values that travel with copies",
     "The tagged values of an object (comments of mobs and components, attribute lists, attributes of tags) are a map from names to values: setting a name changes the first tag of that name or adds one at the end, asking gives the value last set, in its type, and nothing else moves or changes. A refused value (of no type a tag takes, out of range, of an unknown type) changes nothing, in particular leaves no tag without a value. It does not matter when a program got the map, tags can be taken out, renamed, retyped and put elsewhere, and after saves, reopens and copies, within a file or to one that lacks the type of a value, all tags read the same.",
     ["histories", "inputs"], "every order of settings, refusals, removals, renames, copies between files and reopens, on every kind of object with tagged values, and every type of value",
     "Tests make three tags and set a few comments; duplicates, refusals, maps kept in variables and types another file lacks need particular histories.",
     ["src/aaf2/misc.py", "src/aaf2/mobs.py", "src/aaf2/types.py", "src/aaf2/properties.py"],
     [("map over a vector of tags", "src/aaf2/misc.py TaggedValueHelper"), ("typed values", "src/aaf2/misc.py TaggedValue.encode_value, src/aaf2/types.py TypeDefIndirect"), ("types of copied values", "src/aaf2/properties.py Property.copy")],
     [("tags", "holder to names, types and values in order", "vectors of TaggedValue")],
     ["TaggedValueHelper, TaggedValue methods", "Mob.comments"],
     "TLA+ specification of tagged values (Tags.tla) model checked with TLC; histories of two files recorded from the code validated event by event by TLC",
     "200 (thorough 6000) seeded histories of 110 steps with names that collide, refused values, detached tags and three types only one file has. Names are strings and None is no value.")

prop("C15", "Keyframes of effect parameters stay ordered and give the value at any time",
     "The control points of a varying parameter are ordered by time, in whatever order keyframes are added, and hold one keyframe per time: adding one at the time of another replaces that one and no other. Values have the type of the parameter's definition, also after they are changed, and a refused value changes nothing. The value at a time is the value of the nearest end outside the keyframes, that of the keyframe at its time, and between two keyframes what the interpolation says: the first value (constant), on the line (linear), within the hull of values and handles (Bezier, cubic), for every placement of handles. An offset map integrates the speed from the first keyframe at every half unit of its range. Parameters survive saves, reopens and copies, in a file or to one that lacks their definitions.",
     ["histories", "inputs"], "every order of adding, replacing, removing and moving keyframes, every type of value, all times and handle shapes, and copies to files without the definitions",
     "Tests add keyframes in order at two times and compare offsets of a few recorded curves.",
     ["src/aaf2/misc.py", "src/aaf2/interpolation.py", "src/aaf2/components.py"],
     [("keyframes in order", "src/aaf2/misc.py VaryingValue.add_keyframe, nearest_index"), ("value at a time", "src/aaf2/misc.py VaryingValue.value_at, src/aaf2/interpolation.py"), ("offset maps", "src/aaf2/misc.py generate_offset_map"), ("types of values", "src/aaf2/misc.py ControlPoint.value, ConstantValue.value"), ("definitions travel", "src/aaf2/misc.py Parameter.copy")],
     [("parameters", "kind, type, interpolation, value and control points of each parameter", "Parameters of operation groups")],
     ["VaryingValue, ConstantValue, ControlPoint", "OperationGroup.parameters", "generate_offset_map"],
     "TLA+ specification of parameters (Params.tla) model checked with TLC; histories recorded from the code validated event by event by TLC, answers of interpolation against exact rational bounds",
     "240 (thorough 8000) seeded histories of 110 steps with times in 1/600 and values in 1/8. Bezier and cubic interpolation is checked to lie in the hull of its control values, not against an exact curve; offset maps are checked for constant and linear speeds, between the least and greatest speed of each half unit.")

prop("C16", "Imported media is stored, described, exported and copied exactly",
     "Importing a wave file, a DNxHD/DNxHR stream or raw video stores exactly its samples or frames in order (raw frames padded to the alignment), and describes them as the media does: channels, rate, width of samples, block alignment, size, bit depth, field layout, compression, frame size and count. The slot has the edit rate asked for, in whatever form it is given, and the duration asked for or that of the media rounded down; a master mob refers to the source mob made for it; an offline import has a description and no essence. A refused import leaves no mob, slot or essence behind. Exported sound is the imported sound with its format. Essence reads back the same through any reads, after saves and in copies to another file.",
     ["inputs", "histories"], "every format, size, bit depth, edit rate and length of media, and every order of imports, refusals, exports, removals, copies and reopens",
     "Tests import a few generated clips and check that they open; they skip without ffmpeg.",
     ["src/aaf2/mobs.py", "src/aaf2/audio.py", "src/aaf2/video.py", "src/aaf2/essence.py"],
     [("imports", "src/aaf2/mobs.py SourceMob.import_audio_essence, import_dnxhd_essence, import_rawvideo_essence, MasterMob.import_*"), ("export", "src/aaf2/mobs.py SourceMob.export_audio"), ("wave files", "src/aaf2/audio.py WaveReader"), ("DNx frames", "src/aaf2/video.py read_dnx_frame_header, dnx_frame_size, iter_dnx_stream")],
     [("essence", "source mob to runs of bytes of the media", "EssenceData"), ("description", "format and count of samples or frames", "essence descriptors")],
     ["SourceMob, MasterMob import and export methods", "EssenceData.open"],
     "TLA+ specification of media and essence (Essence.tla) model checked with TLC; histories of two files recorded from the code validated event by event by TLC, bytes compared as runs of the media files",
     "160 (thorough 4000) seeded histories of 40 steps; media of at most a few MB; DNx frames are headers with random payloads. Wave files with 16 to 24 bits; streams cut within a frame are not tried.")

prop("C17", "Identifiers keep their value through every form, and compare by it",
     "An AUID or mob id made from any of its forms (text in each accepted spelling, integer, stored or written bytes, UUID, fields, dict, another identifier) has that value, and every form read from it gives the value back: text, integer, bytes in either order, parts, through a file. Only mob ids whose unswapped material number looks like a swapped label share their text with another id. Identifiers are equal exactly if their bytes are, equal ones (an equal uuid.UUID included) are the same dictionary key, and the order is that of their numbers. Setting a field changes that field and no other identifier; a malformed text, value or dict is refused and changes nothing. New mob ids differ from all others and have the standard label.",
     ["inputs", "histories"], "all 16 and 32 byte values with every spelling and field, and sequences of changes to identifiers made from each other",
     "Tests convert a list of sample ids to text and back.",
     ["src/aaf2/auid.py", "src/aaf2/mobid.py"],
     [("forms of AUIDs", "src/aaf2/auid.py AUID.__init__, bytes_be, int, hex, uuid, data1-4"), ("text of mob ids", "src/aaf2/mobid.py MobID.urn"), ("fields of mob ids", "src/aaf2/mobid.py MobID properties, from_dict, to_dict"), ("order, equality, hash", "__eq__, __lt__, __hash__ of both")],
     [("AUIDs", "name to 16 written bytes", "AUID.bytes_le"), ("mob ids", "name to 32 stored bytes", "MobID.bytes_le")],
     ["AUID", "MobID", "UniqueMobID"],
     "TLA+ specification of identifiers (Ids.tla) model checked with TLC; histories of identifiers recorded from the code validated event by event by TLC",
     "200 (thorough 8000) seeded histories of 120 steps over 10 identifiers. Byte strings of a wrong length given as stored bytes are not tried.")

prop("C18", "Linking external media makes the mobs its header or probe describes, or none",
     "Linking an MXF file adds one mob for each package of its header that the file does not have yet (by mob id), in order, and gives back just those: kind, name, creation time, comments with their attributes, timeline slots with numbers, names, edit rates, origins and track numbers, segments with every length, start, source and timecode, and descriptions with their attributes and locators; packages already there, and everything else in the file, stay as they are. Linking probed media adds a master, a file source and a tape mob with one slot for each picture stream and each sound channel, numbered tracks, lengths and rates of the streams, each slot leading to the slot below; descriptions hold the format the probe and the file's header give, and locate the file, by a relative path too. A link that fails leaves no part of a mob; unknown media gives nothing. The file can be saved and reads back the same.",
     ["inputs", "histories"], "every MXF header (packages, segments, descriptions, layout of partitions and sets) and every probe of streams, and sequences of links that share packages or fail",
     "Tests of linked media need ffmpeg and skip without it; they link a few generated clips to empty files.",
     ["src/aaf2/mxf.py", "src/aaf2/ama.py"],
     [("MXF headers", "src/aaf2/mxf.py MXFFile, iter_kl, read_object"), ("packages to mobs", "src/aaf2/mxf.py MXFPackage.link and link of segments and descriptors"), ("probed media", "src/aaf2/ama.py create_media_link, FormatInfo, StreamInfo"), ("headers of sound files", "src/aaf2/ama.py get_wave_fmt, get_aifc_fmt")],
     [("file", "names of mobs to kind, name, slots, comments, description", "content.mobs")],
     ["MXFFile.link", "create_media_link, create_ama_link"],
     "TLA+ specification of linked media (Media.tla) model checked with TLC; histories of links recorded from the code validated event by event by TLC",
     "160 (thorough 4000) seeded histories of 16 links; MXF files are written by the harness (one header partition, sets in any order, fill, unknown sets and tags). Pixel formats and sample formats of a list; unknown data definitions only in clips.")

"""Writes properties.jsonl (kept as code so the text stays reviewable)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

prop("C01", "Unmodified round trip is byte-identical",
 "Parsing a valid FLP/FST/FSC file and saving the project without changing anything writes exactly the bytes that were read: every event, in file order, with its original ID, length and payload, and the original header fields. This includes payload bytes the library has no field for (trailing bytes after a known structure, unusual string terminators, non-canonical booleans).",
 ["inputs"], "every parseable file: any sequence of events, any event ID, any payload length and content, any header format/PPQ/channel count",
 "The tests save one project and compare it only at model level; they never vary payload length, trailing bytes, unknown fields or the kind of file.",
 ["pyflp/__init__.py", "pyflp/_events.py", "pyflp/_adapters.py", "pyflp/channel.py", "pyflp/plugin.py", "pyflp/mixer.py", "pyflp/arrangement.py", "pyflp/pattern.py", "pyflp/project.py"],
 [("parse() appends one event per chunk", "pyflp/__init__.py:parse"), ("save() writes every event of the root tree", "pyflp/__init__.py:save"), ("event serialisation", "pyflp/_events.py:EventBase.__bytes__")],
 ["bytes of the saved file"])
prop("C02", "Event framing: reader, event classes and writer agree for every ID",
 "For each of the 256 event IDs the number of payload bytes the parser consumes, the payload size the event object accepts, the bytes it serialises to and the size it reports all follow one rule: IDs 0-63 carry 1 byte, 64-127 carry 2, 128-191 carry 4, and 192-255 carry a variable-length size prefix followed by that many bytes. A fixed-size event built from a payload of any other length, or a last event whose declared payload runs past the end of the file, is rejected with InvalidEventChunkSize.",
 ["inputs"], "all 256 IDs, all payload lengths",
 "Test files contain only some of the IDs and only well formed chunks.",
 ["pyflp/__init__.py", "pyflp/_events.py"],
 [("chunk reader", "pyflp/__init__.py:parse"), ("size checks and serialisation", "pyflp/_events.py:EventBase"), ("reported size", "pyflp/_events.py:EventBase.size")])
prop("C03", "A corrupt header is always rejected with HeaderCorrupted",
 "parse() never returns a project for a file whose header chunk magic, header size, format, PPQ, data chunk magic or data chunk size is not valid, or which is too short to hold them; it raises HeaderCorrupted in each of those cases. A file whose header is valid is never rejected with HeaderCorrupted.",
 ["inputs"], "every 22-byte file prefix and every file length",
 "Tests feed a handful of corrupted headers; the property is about all combinations of the header fields and lengths.",
 ["pyflp/__init__.py", "pyflp/project.py"],
 [("header checks", "pyflp/__init__.py:parse"), ("VALID_PPQS / FileFormat", "pyflp/project.py")])
prop("C04", "Saving is all-or-nothing and the header describes what was written",
 "save() finishes serialising every event before it touches the destination, so a project that cannot be serialised leaves an existing destination file as it was. What it writes is: the fixed header magic and size, the project's current format, channel count and PPQ, the data chunk magic, the exact little-endian byte length of the event data, and the event data.",
 ["inputs", "fault_sequences"], "every project (including modified ones and ones with events that fail to serialise), every destination",
 "No test makes an event fail while saving and none checks the header of a saved preset.",
 ["pyflp/__init__.py", "pyflp/project.py"],
 [("serialise, then open and write", "pyflp/__init__.py:save")])
prop("C05", "Event IDs are unambiguous and typed legally for their range",
 "No event ID is claimed by two different parts of the library, and the type the library associates with an ID is one that accepts that ID, so that an event of that ID can always be constructed by the parser. Every ID keeps the meaning and payload type it has in the FL Studio format.",
 ["inputs"], "all 256 event IDs against every registered event ID enumeration",
 "The tests only construct the IDs that occur in the sample files; a clash or illegal type shows only when an affected ID occurs.",
 ["pyflp/_events.py", "pyflp/project.py", "pyflp/channel.py", "pyflp/mixer.py", "pyflp/pattern.py", "pyflp/arrangement.py", "pyflp/plugin.py", "pyflp/timemarker.py"],
 [("EventEnum subclasses", "pyflp/*.py"), ("ALLOWED_IDS", "pyflp/_events.py")])
prop("C06", "Unknown events and unknown plugin data pass through opaquely",
 "Every event ID is accepted by the parser: IDs the library does not know get an integer, string or raw-bytes value according to their range. Plugin data is interpreted only with the structure belonging to the most recent plugin internal name and otherwise kept as raw bytes.",
 ["inputs", "histories"], "all 256 IDs, all plugin internal names, all orders of name and data events",
 "Sample files only contain known IDs and a dozen plugins.",
 ["pyflp/__init__.py", "pyflp/plugin.py", "pyflp/_events.py"],
 [("type fallback", "pyflp/__init__.py:parse"), ("plugin name lookup", "pyflp/plugin.py:get_event_by_internal_name"), ("ID pseudo members", "pyflp/_events.py:EventEnum._missing_")])
prop("C07", "Text encoding follows the file's FL Studio version",
 "In files saved by FL Studio 11.5 or newer, text events are decoded and encoded as UTF-16-LE, in older ones as ASCII; the version text itself is always ASCII. Text is terminated with one NUL when written, and trailing NULs are not part of the value read; a text event before the version is known is rejected with VersionNotDetected.",
 ["inputs", "configurations"], "every version number, every text-carrying event ID, every string",
 "All sample files are from a few versions, all of them >= 11.5.",
 ["pyflp/__init__.py", "pyflp/_events.py", "pyflp/project.py"],
 [("string type selection", "pyflp/__init__.py:parse"), ("AsciiEvent / UnicodeEvent", "pyflp/_events.py")])
prop("C08", "A property that was set reads back, and the change is saved",
 "After a writable property of any model has been set to a legal value, reading it again - through the same object or through any other object for the same entity obtained from the project - returns that value, and the saved event carries it. No other property changes its value except those documented to share the same storage.",
 ["inputs", "histories"], "every writable property of every model, every legal value, every prior state, every access path to the same entity",
 "The tests assert getters on sample files and set almost nothing.",
 ["pyflp/_descriptors.py", "pyflp/_models.py", "pyflp/channel.py", "pyflp/mixer.py", "pyflp/pattern.py", "pyflp/arrangement.py", "pyflp/plugin.py", "pyflp/project.py"],
 [("descriptors", "pyflp/_descriptors.py"), ("item write back", "pyflp/_models.py:ItemModel.__setitem__")])
prop("C09", "Every property is bound to its fixed place in the file format",
 "Each public model property reads exactly the event ID, byte offset, width, signedness, encoding and flag bit that the FL Studio format assigns to it, whichever model exposes it. When several events can hold it the documented preference order applies.",
 ["inputs"], "every property of every model class, all payload contents",
 "Tests see one or a few values per property, often defaults such as 0 that several neighbouring fields share.",
 ["pyflp/channel.py", "pyflp/mixer.py", "pyflp/pattern.py", "pyflp/arrangement.py", "pyflp/plugin.py", "pyflp/project.py", "pyflp/timemarker.py", "pyflp/_descriptors.py"],
 [("STRUCT layouts", "pyflp/*.py"), ("property descriptors", "pyflp/*.py")])
prop("C10", "Missing data reads as None or a default and cannot be set",
 "When the event or field behind an optional property is absent, reading it gives None or its documented default, never an unrelated value or an internal error. Setting it raises PropertyCannotBeSet and leaves the project unchanged.",
 ["inputs"], "every property, every subset of absent events, every payload shorter than the full structure",
 "Sample files contain nearly every event in its newest, longest form.",
 ["pyflp/_descriptors.py", "pyflp/_events.py", "pyflp/channel.py", "pyflp/project.py", "pyflp/arrangement.py"],
 [("PropBase", "pyflp/_descriptors.py"), ("StructEventBase.__setitem__", "pyflp/_events.py")])
prop("C11", "Flag properties touch exactly their own bit",
 "Setting a boolean property that is stored as one bit of a flags word changes that bit and no other; reading it depends on that bit only; inverted properties negate both ways. Two different flag properties of the same word use different bits.",
 ["inputs"], "every flag property, every initial flags word, both values",
 "Tests only read flags; none sets one with other bits present.",
 ["pyflp/_descriptors.py", "pyflp/plugin.py", "pyflp/channel.py", "pyflp/mixer.py", "pyflp/pattern.py"],
 [("FlagProp", "pyflp/_descriptors.py"), ("_VSTFlagProp", "pyflp/plugin.py"), ("flag enums", "pyflp/*.py")])
prop("C12", "Event views stay coherent with their parents",
 "Inserting, appending or removing an event through any view is reflected in that view and in all its ancestors up to the root, at the matching place in file order, and nowhere else; the root keeps every other event exactly once, in the same relative order. Views select exactly the events asked for, in file order.",
 ["histories", "inputs"], "every sequence of insert/append/pop/remove on every nesting of views; every event list",
 "Tests use one tiny tree and check only one insert/pop.",
 ["pyflp/_events.py"],
 [("EventTree", "pyflp/_events.py:EventTree")])
prop("C13", "Each event belongs to the right model and to only one kind",
 "Every event is attributed to the entity it belongs to by its place in the file: channel rack events up to the first mixer insert, insert and slot events after it, pattern events to the pattern announced last, time markers to patterns before the first arrangement and to arrangements after it. Sibling entities never share an event, and none of an entity's events is lost.",
 ["inputs"], "every order and number of events in a file",
 "Sample files follow one event order; the split logic is exercised on that order only.",
 ["pyflp/project.py", "pyflp/channel.py", "pyflp/mixer.py", "pyflp/pattern.py", "pyflp/arrangement.py"],
 [("Project.channels/mixer/patterns/arrangements select functions", "pyflp/project.py"), ("__iter__ of the collections", "pyflp/*.py")])
prop("C14", "Collections index, slice, look up and count consistently",
 "For every model collection, iterating yields the entities in order, indexing by number returns the entity iteration yields at that place (channels: with that internal ID; mixer: counted from -1), indexing by name returns the first entity with that name, slicing returns the same elements a list slice would, and len() is the number yielded. A key that matches nothing raises ModelNotFound (or its subclass), an empty collection NoModelsFound from len().",
 ["inputs"], "every collection content, every index, name and slice",
 "Tests index a few known positions of known files.",
 ["pyflp/_models.py", "pyflp/channel.py", "pyflp/mixer.py", "pyflp/pattern.py", "pyflp/arrangement.py"],
 [("supports_slice", "pyflp/_models.py"), ("__getitem__/__iter__/__len__", "pyflp/*.py")])
prop("C15", "Value codecs are inverse to each other",
 "Decoding a stored value and encoding the result gives the stored value back, for every value converter the library uses (colors, musical time, logarithmic and normalised levels, percentages, booleans, enumerations, tuples, the licensee text). Encoding never silently truncates towards zero a value that decoding produced.",
 ["inputs"], "every stored value in the field's range",
 "Tests check single values, mostly extremes and defaults.",
 ["pyflp/_adapters.py", "pyflp/types.py", "pyflp/_events.py", "pyflp/arrangement.py", "pyflp/project.py"],
 [("adapters", "pyflp/_adapters.py"), ("RGBA", "pyflp/types.py"), ("HeightAdapter", "pyflp/arrangement.py")])
prop("C16", "Setters validate first: a rejected value changes nothing",
 "Values outside the documented range or format of tempo, PPQ, channel count, version and note key are rejected with the documented exception, and every value inside is accepted. When a setter raises, the project is exactly as it was before.",
 ["inputs"], "every value passed to a validating setter, every prior state",
 "Tests try very few invalid values and never look at the state afterwards.",
 ["pyflp/project.py", "pyflp/pattern.py", "pyflp/channel.py", "pyflp/_adapters.py"],
 [("Project.tempo/ppq/channel_count/version setters", "pyflp/project.py"), ("Note.key setter", "pyflp/pattern.py")])
prop("C17", "Library errors are catchable as documented",
 "Every exception class the library defines derives from its base Error, and each keeps its documented standard-library base (LookupError, IndexError, KeyError, ValueError, AttributeError, BufferError). The documented failure of each public operation raises the documented class and no internal error escapes instead.",
 ["inputs"], "every documented failure path",
 "Tests trigger few failures.",
 ["pyflp/exceptions.py", "pyflp/channel.py", "pyflp/_events.py", "pyflp/_models.py"],
 [("exception classes", "pyflp/exceptions.py")])
prop("C18", "Reading never changes a project",
 "Getting any property, iterating, indexing, counting or printing any model changes neither an event, nor the order or number of events, nor the project's header fields. Only save() writes a file, and parse() opens its file for reading only.",
 ["inputs", "histories"], "every read access in every state, any number of times",
 "Nothing in the tests compares a project before and after reading it.",
 ["pyflp/_descriptors.py", "pyflp/_models.py", "pyflp/_events.py", "pyflp/channel.py", "pyflp/mixer.py", "pyflp/pattern.py", "pyflp/arrangement.py", "pyflp/plugin.py", "pyflp/project.py"],
 [("getters, __iter__, __len__, __repr__", "pyflp/*.py")])
prop("C19", "Plugin data, plugin model and internal name match one to one",
 "Each supported plugin has a distinct internal name; data stored under that name is decoded with that plugin's structure and exposed through that plugin's model on channels and mixer slots respectively; unsupported plugin data yields the generic plugin model. Assigning a plugin stores its internal name, wrapper and data together.",
 ["inputs"], "every plugin class, every internal name, plugin on a channel or on a slot",
 "Tests load one preset per plugin and never assign one.",
 ["pyflp/plugin.py", "pyflp/channel.py", "pyflp/mixer.py"],
 [("PluginProp", "pyflp/plugin.py"), ("INTERNAL_NAME tables", "pyflp/plugin.py")])
prop("C20", "Mixer parameters reach the right insert, slot and band",
 "Each mixer parameter record is attributed to the insert, effect slot and parameter encoded in it, so that an insert's volume, pan, stereo separation, EQ bands and a slot's enabled state and mix read and write the record for that very insert and slot. A parameter without a record reads as None and cannot be set.",
 ["inputs"], "every parameter record (all parameter IDs, insert and slot numbers), every subset of records",
 "Tests read a few parameters of a few inserts and set none; no test touches slot parameters.",
 ["pyflp/mixer.py"],
 [("MixerParamsEvent", "pyflp/mixer.py"), ("_MixerParamProp / _InsertEQProp", "pyflp/mixer.py")])
prop("C21", "Playlist items map to the right track and the right clip",
 "Every playlist item appears on exactly the track encoded in it and exposes the channel or pattern encoded in it, for old (199 tracks) and new (500 tracks) projects alike. Assigning another channel or pattern stores a reference that reads back as that channel or pattern.",
 ["inputs", "configurations"], "every item, every version, every channel and pattern number",
 "One arrangement of one version is tested.",
 ["pyflp/arrangement.py"],
 [("Arrangement.tracks", "pyflp/arrangement.py"), ("ChannelPLItem.channel / PatternPLItem.pattern", "pyflp/arrangement.py")])
prop("C22", "Combined values decompose and recompose exactly",
 "Properties that share or derive from one stored number - note key, time marker type and position, reverb type and mix, tempo, creation date and time spent, version and build number - compute it by the format's fixed rule, and setting one part keeps the other part. Version comparison orders any two versions, with or without a build number.",
 ["inputs"], "every stored number, every combination of parts",
 "Tests look at a few stored values and never set one part next to another.",
 ["pyflp/pattern.py", "pyflp/timemarker.py", "pyflp/channel.py", "pyflp/project.py", "pyflp/types.py"],
 [("derived properties", "pyflp/project.py, pyflp/pattern.py, pyflp/timemarker.py, pyflp/channel.py")])
prop("C23", "FL Studio opens what the library saves",
 "A project saved by the library, modified or not, is accepted and shown by FL Studio the way the library shows it.",
 ["inputs"], "every project", "FL Studio is not available to the tests.", ["pyflp/__init__.py"], [("save", "pyflp/__init__.py:save")])
prop("C24", "Parsing time is linear in the number of events",
 "Parsing a file takes time proportional to its size.",
 ["inputs"], "every file", "Tests do not measure time.", ["pyflp/__init__.py", "pyflp/_events.py"], [("parse loop", "pyflp/__init__.py:parse")])
prop("C25", "Projects are independent of each other",
 "What a project reads as and is saved as depends only on its own file and on what was done to it. Parsing, reading, changing, saving or failing to parse other files in the same process, before or in between, never changes it; assigning a value or plugin read from one project to another one does not tie the two together.",
 ["histories", "inputs"], "every pair of projects, every interleaving of public operations on them, every earlier file",
 "Every test works on freshly parsed sample files and compares nothing after touching a second project.",
 ["pyflp/__init__.py", "pyflp/_events.py", "pyflp/_models.py", "pyflp/_descriptors.py", "pyflp/plugin.py", "pyflp/project.py"],
 [("parser state", "pyflp/__init__.py:parse"), ("model and event state", "pyflp/_events.py, pyflp/_models.py"), ("PluginProp.__set__", "pyflp/plugin.py")])
pathlib.Path(__file__).with_name("properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in P))

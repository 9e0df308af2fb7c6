#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from one table (run it by hand, the results are committed)."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, claimed=True, reason=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe,
                  technique=technique, note=note, claimed=claimed, reason=reason))


LOCK = "lockstep explicit-state model checking of the real code against a reference model"

prop("C01", "A store is a map: a get returns the value of the last set",
     "After any sequence of sets and removals, reading a key returns exactly the value of the last set of that key, of any Go type including nil and zero values, whatever other keys were written before or after, in whatever order, and however much the keys share of their prefixes. "
     "Set hands out the previous value of the key (nil for a new key), and a section without a value of its own reads as found with a nil value, an absent path as not found. "
     "The same holds for the generic typed store and for every way to write a key.",
     ["histories", "inputs"], "all histories of writes and removals over sets of keys sharing prefixes at rune, fragment and segment boundaries",
     "Tests insert some fixed sets of keys in one order; the shape of the radix tree depends on the order of all writes and removals.",
     ["radix/node.go", "radix/trie.go", "store.go"], [("node insertion and splitting", "radix/node.go"), ("path lookup", "radix/trie.go")],
     ["Get", "MustGet", "Set", "NewStoreT"], LOCK, "")
prop("C02", "A path exists exactly if it is a key or a section of keys",
     "Existence queries answer true exactly for live keys and for sections, i.e. the delimiter-terminated prefixes of live keys (with or without the trailing delimiter); a string which merely is a prefix of a key by characters does not exist. "
     "All of the existence queries agree, after any history of sets and removals, and a query says whether it hit a key or a section; the tests for the first and last character of a path's last fragment depend on the path only.",
     ["histories", "inputs"], "all histories within the bounds, and for each of them all rune prefixes and extensions of the keys",
     "Tests probe a handful of paths on a few trees; the answer depends on where the radix tree happens to be split.",
     ["radix/trie.go", "radix/node.go", "store.go"], [("boundary interpretation of a match", "radix/trie.go"), ("recursive matching", "radix/node.go")],
     ["Has", "Search", "Query", "Locate", "HasPart", "StartsWith", "EndsWith"], LOCK, "")
prop("C03", "Removal deletes exactly the path and what is below it",
     "Removing a path deletes the key of that name and all of the keys below it, and nothing else: the values and metadata of all other keys are unchanged, including those which share leading characters with it. "
     "It reports true exactly if something was there, and a removed key can be set again as a new one.",
     ["histories", "inputs"], "all histories of sets and removals within the bounds, removal of keys, sections, prefixes and absent paths",
     "Tests remove one or two keys of a fixed tree.",
     ["radix/trie.go", "radix/node.go", "store.go"], [("removal and pruning", "radix/trie.go"), ("child removal", "radix/node.go")],
     ["Remove", "RemoveEx", "Get", "Walk"], LOCK, "")
prop("C04", "Enumerations list every live key exactly once, and nothing else",
     "Walking the whole store, dumping it, and extracting all of it as a map list each of the live keys exactly once with its current value, and no removed or never set key; walking a section (a path with the trailing delimiter) lists exactly the keys below it.",
     ["histories", "inputs"], "all histories of sets and removals within the bounds, all sections of the keys",
     "Tests compare a dump of one fixed tree.",
     ["radix/node.go", "radix/trie.go", "radix/cvter.go"], [("tree walking", "radix/node.go"), ("dump", "radix/node.go"), ("map extraction", "radix/cvter.go")],
     ["Walk", "Dump", "GetR", "GetM"], LOCK, "")
prop("C05", "Extracting a section yields exactly its keys and values",
     "Extracting a section as a flat map yields exactly the live keys of the section with their values, under their full keys; extracting it as a nested map yields the same keys relative to the section (or with the prefix, if asked to keep it), a filter drops exactly the rejected keys, and an absent section yields nothing or the given default. "
     "Extracting a section into a struct sets exactly the fields which have a key in the section to its value. Extracting never changes the values the store holds.",
     ["histories", "inputs", "configurations"], "all histories within the bounds, all paths derived from the keys, all combinations of the extraction options, all subsets of the fields of a struct",
     "Tests extract one or two sections of a fixed tree.",
     ["radix/cvter.go", "radix/trie.go"], [("map extraction", "radix/cvter.go")],
     ["GetM", "MustM", "GetR", "MustR", "To"], LOCK, "")
prop("C06", "Description, comment and tag stay bound to their key",
     "The description, comment and tag set for a key are read back for that key and no other one until they are set again or the key is removed, whatever keys are added or removed around it; setting the value of a key does not touch them. "
     "Setting metadata of an absent path reports failure and changes nothing, reading it reports a not-found error.",
     ["histories", "inputs"], "all histories of value, metadata and removal operations within the bounds",
     "Tests set metadata of one key of a fixed tree.",
     ["radix/trie.go", "radix/node.go"], [("metadata accessors", "radix/trie.go"), ("node splitting", "radix/node.go")],
     ["SetComment", "SetTag", "SetNode", "GetDesc", "GetComment", "GetTag"], LOCK, "")
prop("C07", "A prefix view is a window onto its store",
     "A view of a store with a prefix reads, writes, removes, merges and extracts path p exactly as the store does for prefix+delimiter+p, and the changes made by either are seen by the other at once. "
     "Prefixes of nested views accumulate unless they are replaced, several parts are joined by the delimiter, and making or changing a view does not affect its origin.",
     ["histories", "configurations"], "all histories of operations through stores and views within the bounds, all ways to make a view",
     "Tests use one prefix and read one key.",
     ["store.go", "radix/load.go", "radix/trie.go"], [("prefix joining", "radix/trie.go"), ("view construction", "radix/load.go")],
     ["WithPrefix", "WithPrefixReplaced", "SetPrefix", "Prefix", "N", "R"], LOCK, "")
prop("C08", "A clone is exact and independent",
     "A clone of a store holds exactly the keys, values, metadata, modification flags, prefix and delimiter of its origin at that time. "
     "From then on no operation on either of them, including changing a nested value in place, affects what is observed through the other one, and the handlers of the origin are not called for the clone.",
     ["histories"], "all histories of operations on the origin, then on both, within the bounds",
     "Tests clone one tree and compare its dump.",
     ["store.go", "radix/node.go", "radix/trie.go", "radix/clone.go"], [("deep copy of nodes", "radix/node.go"), ("deep copy of data", "radix/clone.go")],
     ["Dup", "Clone"], LOCK, "")
prop("C09", "Merging a map sets exactly the flattened keys of the map",
     "Merging a nested map at a path sets exactly the keys made by joining that path and the keys along each leaf of the map by the delimiter, to the values of the leaves, in any iteration order, and leaves all other keys alone. "
     "Slices are values of one key, or spread over indexed keys if slice flattening is on.",
     ["inputs", "histories", "configurations"], "all nested maps within the bounds, all merge points, orders and flags",
     "Tests merge one or two maps; the iteration order of a map is random.",
     ["load.go", "radix/load.go"], [("recursive map loading", "load.go"), ("trie map loading", "radix/load.go")],
     ["Merge"], LOCK, "")
prop("C10", "Loading puts exactly the content of the source at its place",
     "Loading a source puts each of its key-value pairs, flattened, below the load prefix with the value, description, comment and tag which the source gave, and leaves all other keys alone, for all kinds of providers and with or without a codec. "
     "Loading several sources in turn is the same as setting their pairs in turn.",
     ["inputs", "histories", "configurations"], "all provider kinds, contents, prefixes and flags within the bounds, all sequences of loads",
     "Tests load some fixed files.",
     ["load.go"], [("provider dispatch", "load.go"), ("recursive map loading", "load.go")],
     ["Load"], LOCK, "")
prop("C11", "Handlers are called exactly once per change, with the right facts",
     "Each set of a key that was absent calls the new-handlers once, each set of an existing key calls the change-handlers once with the new and the old value, and each removal of an existing path calls the delete-handlers once, in order of the operations, with the full path; operations which change nothing call none. "
     "The flag of the notification is set exactly for merges and loads, and changes made through views are notified to the handlers of the store.",
     ["histories"], "all histories of sets, removals, merges and loads through stores and views within the bounds",
     "Tests register handlers and print what they get.",
     ["store.go", "load.go"], [("notification", "store.go")],
     ["WithOnNewHandlers", "WithOnChangeHandlers", "WithOnDeleteHandlers"], LOCK, "")
prop("C12", "Modification flags mark exactly user changes, and Save writes those",
     "A key is flagged as modified exactly if it was set or merged by the user, in contrast to being loaded, since it was created; loading over a modified key does not hide the modification. "
     "Saving writes back exactly the modified keys, nested and encoded by the codec of the source, and writes nothing if none is modified; saving all writes all keys.",
     ["histories", "configurations"], "all histories of sets, merges, loads, loading sections and removals within the bounds",
     "Tests save after one change.",
     ["store.go", "load.go", "radix/node.go"], [("modified flag", "store.go"), ("write-back", "load.go")],
     ["Load", "Save", "SaveAs", "WithinLoading", "Modified"], LOCK, "")
prop("C13", "Typed getters convert faithfully, and fall back as documented",
     "For every stored value and every typed getter, the result is the value converted to the type whenever the converter supports the pair of types and the conversion is lossless (lossy or malformed conversions only must not panic in the Must form); an absent path yields the default, if given, or the zero value, the error-returning form reports not-found exactly for absent paths, and a Must form never panics. "
     "Getters never change the store.",
     ["inputs"], "all pairs of stored values of a catalogue (all kinds, extremes, texts) and getters, present, absent and section paths, with and without a default",
     "Tests call each of the getters for one or two values.",
     ["radix/cvter.go"], [("conversion", "radix/cvter.go")],
     ["GetXxx", "MustXxx"], "exhaustive enumeration of the value/getter product on the real code, against a conversion oracle", "")
prop("C14", "A time-to-live clears its key or section when it is due, only then",
     "When the time-to-live of a key is due, its value is cleared and its callback is called exactly once; for a section, the whole section is dropped; nothing happens earlier and no other key is ever affected, whatever is set, removed or split meanwhile. "
     "Closing the store cancels everything pending, and a time-to-live for an absent path is refused.",
     ["histories", "schedules"], "all histories of sets, removals, time-to-lives, time steps and closing within the bounds, in virtual time",
     "Tests sleep for one expiry.",
     ["radix/trie.go", "radix/node.go"], [("ttl jobs", "radix/trie.go")],
     ["SetTTL", "SetTTLFast", "Close"], "lockstep model checking of the real code in virtual time (testing/synctest)", "")
prop("C15", "Recursive-up lookup finds the nearest enclosing key",
     "In the recursive-up mode, reading a.b.c.k finds the key itself if it exists, else the same last segment in the nearest enclosing section, and reports not-found if there is none; the other modes never look at enclosing sections. "
     "The mode of a view does not affect its origin, and it changes no writes.",
     ["histories", "inputs"], "all sets of keys within the bounds, all queried paths",
     "Tests try one tree.",
     ["radix/trie.go", "radix/load.go"], [("retry on enclosing sections", "radix/trie.go")],
     ["BR", "N", "R", "Get"], LOCK, "")
prop("C16", "Route patterns match and capture exactly",
     "A path matches a stored route exactly if they agree segment by segment, where a segment :name of the route matches any one segment and a final *name matches the whole rest, and literal routes win over patterns; each of the named segments is captured with the text it matched. "
     "A path that matches none of the routes is not found.",
     ["inputs", "histories"], "all subsets and insertion orders of the routes, all paths over a small alphabet, within the bounds",
     "Tests match some fixed routes.",
     ["radix/node.go", "radix/trie.go"], [("pattern matching", "radix/node.go")],
     ["Query", "Locate"], LOCK, "")
prop("C17", "A failing load or save changes nothing and is reported",
     "If reading or decoding a source fails at any point, the load reports the error, the store keeps exactly its content, flags and views, calls no handler and starts no watching; a failing encoder or writer is reported by the save and leaves the store as it was. "
     "After a failure or panic of the source the store is usable as before: the next load and the modification flags work.",
     ["fault_sequences", "histories"], "all combinations of the fault points of a load and a save, in all short histories",
     "Tests load from a missing file only.",
     ["load.go"], [("load", "load.go"), ("write-back", "load.go")],
     ["Load", "Save"], "exhaustive fault enumeration on the real code in lockstep with the reference model", "")
prop("C18", "Watched changes are applied, and closing stops watching",
     "A change event of a watched source is applied to the store at the place of the source: created and written keys are set, removed keys removed, nothing else changes, and an error event changes nothing; a source is watched only if watching is enabled and not declined for that load. "
     "Closing the store closes each of the watched sources exactly once.",
     ["histories", "configurations"], "all sequences of events, loads, sets and closing within the bounds, all combinations of the flags",
     "Tests touch one file.",
     ["load.go", "store.go"], [("watch start", "load.go"), ("applying changes", "load.go"), ("closers", "store.go")],
     ["Load", "WithWatchEnable", "WithoutWatch", "Close"], LOCK, "")
prop("C19", "The loading state covers exactly the load",
     "Exactly the sets made while a store is loading, or within a loading function, directly or through a view of it, leave the key unmodified and are notified as loading; the state ends when the function returns or panics. "
     "A load or loading function started while its store is loading already is skipped and does not end the state early.",
     ["histories", "fault_sequences"], "all nestings of loading functions, loads, views, panics and sets within the bounds",
     "Tests use one loading function.",
     ["load.go", "store.go"], [("loading flag", "load.go")],
     ["WithinLoading", "Load"], LOCK, "")
prop("C20", "Codecs round-trip configuration data",
     "For every supported codec, decoding what it encoded yields the same nested map up to the number types of the format, and decoding malformed bytes yields an error and never a panic. "
     "Encoding does not change its input, and a store saved by a codec and loaded again holds the same keys and values.",
     ["inputs"], "all nested maps within the bounds over a catalogue of values and keys, all truncations and single-byte changes of the encodings",
     "Tests decode one file per codec.",
     ["codecs/json/json.go", "codecs/yaml/yaml.go", "codecs/toml/toml.go", "codecs/hjson/hjson.go", "codecs/nestext/nestext.go", "codecs/gob/gob.go", "codecs/hcl/hcl.go"],
     [("codec adapters", "codecs")], ["Marshal", "Unmarshal"], "exhaustive enumeration of nested values and corruptions on the real codecs", "")
prop("C21", "Providers deliver exactly the content of their source",
     "The environment, command-line flags, map, file and file-system providers deliver exactly the entries of their source which their prefix and rules select, under the keys which their rules make, each once, and iterating keys, counting, existence and values agree. "
     "A file provider writes back exactly the bytes it is given.",
     ["inputs", "configurations"], "all small sources and option combinations within the bounds",
     "Tests read one fixed source each.",
     ["providers/env/env.go", "providers/flags/flags.go", "providers/maps/maps.go", "providers/file/file.go", "providers/fs/fs.go"],
     [("provider implementations", "providers")], ["Read", "ReadBytes", "Keys", "Next", "Value", "Write"], "exhaustive enumeration of small sources on the real providers", "")
prop("C22", "Any delimiter works the same way, and re-interprets the same keys",
     "A store with any other delimiter behaves like the dotted store with the delimiters exchanged in all keys. "
     "Changing the delimiter at runtime changes no key or value, only how the paths are split into sections, and changing it back restores the former answers.",
     ["configurations", "histories"], "all histories within the bounds, several delimiters including multi-byte ones, all delimiter changes in between",
     "Tests use two delimiters on a fixed tree.",
     ["radix/trie.go", "store.go", "radix/cvter.go"], [("delimiter", "radix/trie.go")],
     ["WithDelimiter", "SetDelimiter", "Delimiter"], LOCK + ", and isomorphism of two runs", "")
prop("C23", "Node handles stay bound to their key",
     "A node handed out by any operation keeps naming the same key: whatever other keys are set or removed, reading it shows the current value and metadata of that key, and writing through it changes exactly that key. "
     "Callbacks get the node of the path asked for, exactly once, and updating a path creates it if needed.",
     ["histories"], "all histories of sets, removals and node operations with all handles kept, within the bounds",
     "Tests use a handle at once.",
     ["radix/node.go", "radix/trie.go"], [("node identity on splitting", "radix/node.go")],
     ["Set", "SetEx", "SetNode", "Update", "GetEx", "Locate"], LOCK, "")
prop("C24", "Concurrent readers, and expiries, are safe",
     "Any number of goroutines may read, extract, walk and make views of a store at the same time, and each of them sees exactly what it would see alone, in every interleaving. "
     "A time-to-live of a key that expires meanwhile is seen as either not yet or wholly done, without deadlock, panic or a data race. "
     "The one goroutine that changes a store may set, tag, empty, merge, reload, copy or remove keys, the expiring one included, while the time-to-live of a key runs out: results and content are those of some order of these steps, one after the other.",
     ["schedules"], "all interleavings of two or three threads at every statement which may touch shared memory, up to a preemption bound",
     "Tests are single threaded.",
     ["radix/node.go", "radix/trie.go"], [("node lock", "radix/node.go"), ("pools", "radix/trie.go")],
     ["Get", "MustXxx", "Walk", "Dump", "GetM", "SetTTL"], "stateless model checking of the instrumented real code under a controlled scheduler (preemption bounding)", "")
prop("C25", "Byte sizes are read by their unit",
     "Reading a text as a size in bytes yields the number times the multiplier of its unit, 1024-based for the binary form and 1000-based for the decimal one, for all units from kilo to exa in either case, with or without the suffix and spacing, and for a plain number the number itself. "
     "A text without a number, or with a negative one, yields zero or an error, and no text causes a panic.",
     ["inputs"], "all texts number+space+unit+suffix of a catalogue, all short texts over an alphabet",
     "Tests read some sizes.",
     ["radix/cvter.go"], [("size parsing", "radix/cvter.go")],
     ["GetKibiBytes", "GetKiloBytes", "MustKibiBytes", "MustKiloBytes"], "exhaustive enumeration of texts on the real code against an independent parser", "")

prop("C26", "A remote key-value source and the store agree",
     "Loading from etcd or consul puts exactly the pairs which the position of the source selects into the store, as strings, under the keys which its strip, prepend and delimiter rules make, with the indexes of consul as the tag of a key if asked for. "
     "With watching on, the changes and removals at the source since reading, however they are grouped into deliveries, leave the store equal to the source once they are delivered, and keys of other origin are untouched. "
     "Without watching, after closing, or if reading fails, nothing is changed, and a watch ends with its context or channel.",
     ["histories", "schedules", "configurations"], "all histories of puts and deletes at the source, loading, deliveries in all groupings and closing, within the bounds; all contents over a set of keys with all options of reading",
     "No test runs against a remote source.",
     ["providers/etcd/etcd.go", "providers/etcd/change.go", "providers/consul/consul.go", "providers/consul/change.go", "load.go"],
     [("etcd reading and watching", "providers/etcd/etcd.go"), ("consul reading and watching", "providers/consul/consul.go"), ("applying of changes", "load.go")],
     ["Load", "WithWatchEnable", "Get", "Walk", "GetTag"], "stateless model checking of the real providers against servers in memory whose deliveries are scheduled, in lockstep with a reference model", "")

prop("C27", "Text forms are well-formed and tell the state",
     "The JSON form of a store, a view or a trie is valid JSON which tells its prefix, delimiter and recursive mode exactly, for any of them, and its string form contains them. "
     "The text of a file operation of a change event is read back as that operation, different operations have different texts, and an unknown text is an error which changes nothing.",
     ["configurations", "inputs"], "all combinations of delimiters, prefixes and modes of a catalogue with control, quoting and multi-byte characters; all operations up to 64 and all names with small changes",
     "Tests marshal one operation and no store.",
     ["radix/trie.go", "store.go", "op.go"], [("MarshalJSON", "radix/trie.go"), ("Op texts", "op.go")],
     ["MarshalJSON", "String", "MarshalText", "UnmarshalText"], "exhaustive enumeration of configurations on the real code", "")
prop("C28", "The dummy store stays empty, whatever is done with it",
     "A dummy store accepts every operation of the Store interface and stays empty: no operation fails, panics, calls back for a key or yields anything but zero values, in any order, and a view of it is again such a store. "
     "The function given to WithinLoading is run exactly once.",
     ["histories"], "all sequences of two (thorough: three) of all methods of the interface",
     "A test calls each method once and looks at no result.",
     ["dummy.go"], [("dummyS", "dummy.go")],
     ["NewDummyStore"], "exhaustive enumeration of method sequences on the real code", "")

prop("C29", "Durations, times and numbers in texts are read faithfully",
     "The text which the time helpers make for any duration, with or without fractions, reads back as exactly that duration, and reading a text yields the sum of its signed parts in days to nanoseconds or an error for anything else, as package time does for texts without days. "
     "A time in any of the known layouts, or an added one, is read as what that layout says, other texts are an error, and no text or value causes a panic.",
     ["inputs"], "all durations composed of a catalogue of parts and around all limits, all short texts over an alphabet and all triples of parts, all layouts times a calendar of instants",
     "Tests print some durations and parse some times.",
     ["internal/times/dur.go", "internal/times/time.go", "internal/times/integers.go"], [("duration text", "internal/times/dur.go"), ("layouts", "internal/times/time.go")],
     ["SmartDurationString", "ParseDuration", "SmartParseTime", "AddKnownTimeFormats"], "exhaustive enumeration of durations, texts and instants on the real code against an exact parser", "")
prop("C30", "A value context is a map iterated in order of names",
     "A value context holds the last value given for each name, by whatever way it was given, and counts its names. "
     "Iterating visits each name present at its start exactly once in sorted order, with its current value, and starts anew after a reset.",
     ["histories"], "all histories of five (thorough: seven) operations over three names",
     "Tests iterate once.",
     ["internal/ctx/ctx.go"], [("ctxS", "internal/ctx/ctx.go")],
     ["WithValue", "WithValues", "Next", "Entry", "ValueBy", "NamesCount"], LOCK, "")

# ---- claims
NOTES = json.load(open(os.path.join(HERE, "tools", "notes.json")))

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")

checks, na = [], []
for p in P:
    i = p["id"]
    if i in NOTES["claimed"]:
        checks.append({"property": i, "quick_cmd": "./vrun %s quick" % i, "thorough_cmd": "./vrun %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": p["technique"], "level": "model_checking",
                       "level_note": NOTES["claimed"][i]})
    else:
        na.append({"property": i, "reason": NOTES["unclaimed"].get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "./vrun build", "hooks": {"guard": "none: no hooks are committed in /repo; C24 instruments a copy through go build -overlay", "enable": "go test -overlay (made by ./vrun)", "source_commits": []},
           "checks": checks, "not_applicable": na, "notes": NOTES["notes"]}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    n = p["statement"].count(". ") + 1
    assert n <= 3, p["id"]
print(len(P), "properties,", len(checks), "claimed")

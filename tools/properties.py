#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, tests, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": tests,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}})

p("C01", "A commit survives decoding and encoding byte for byte",
  "Every commit object with its headers in canonical order (tree, parents, author, committer, encoding, mergetags, PGP signature, any other headers, blank line, message) is decoded without error, and encoding the result gives exactly the same bytes, so its object id never changes. This holds whichever optional parts are present, however many parents, mergetags and other headers there are, however long the lines are, and whatever bytes (except newline) the header values hold and whatever bytes the message holds.",
  ["inputs"], "all canonical commit objects",
  "The tests re-encode the commits of one archive and of the repository's own history: a few shapes, no long lines, no unusual bytes, few mergetags; the property is over all combinations and contents.",
  ["commit.go", "tag.go", "personinfo.go", "helper.go"],
  [("line decoder", "commit.go decodeCommitLine"), ("encoder", "commit.go encodeCommit"), ("mergetags", "tag.go readMergeTag"), ("signature", "commit.go decodeGpgSig")],
  ["ParseObject", "Encode"])
p("C02", "A decoded commit holds exactly what the object says",
  "For every canonical commit object the decoded node has exactly the object's tree, its parents in order, author and committer, encoding, mergetags in order with all their parts, signature text, other header lines in order, and message. Optional parts that the object lacks are absent, not empty, and the generic and the typed accessors agree on all of it.",
  ["inputs"], "all canonical commit objects",
  "The tests compare fields of one or two fixed commits; a decoder and an encoder that are wrong in the same way pass every round-trip test.",
  ["commit.go", "tag.go", "personinfo.go", "ipldsch_satisfaction.go"],
  [("field assignment", "commit.go decodeCommitLine"), ("typed accessors", "ipldsch_satisfaction.go Field*")],
  ["ParseObject", "Node iterators and lookups", "typed accessors"])
p("C03", "A tag survives decoding and encoding byte for byte",
  "Every annotated tag object (object, type, tag, optional tagger, then optionally a blank line and a message) is decoded without error, and encoding the result gives exactly the same bytes. This holds with and without tagger and message, for any lengths, and for any bytes git allows in them.",
  ["inputs"], "all tag objects of that form",
  "The tests see the tags of one archive, all with a tagger, a short message and plain text.",
  ["tag.go", "personinfo.go", "helper.go"], [("decoder", "tag.go DecodeTag"), ("encoder", "tag.go encodeTag")], ["ParseObject", "Encode"])
p("C04", "A decoded tag holds exactly what the object says",
  "For every annotated tag object the decoded node has exactly the object's target link, type, tag name, tagger (name, email, date, timezone) and message, each in its own field and unchanged. A tag without a tagger or a message has empty ones.",
  ["inputs"], "all tag objects", "The tests check a tag's fields for one fixed object at most.",
  ["tag.go", "personinfo.go"], [("field assignment", "tag.go DecodeTag")], ["ParseObject", "Node accessors"])
p("C05", "A tree is read and written exactly, entry by entry",
  "A tree object is decoded to its entries in the object's order, each under its name with its mode text and link, and encoding gives back the same bytes whatever the order, names, modes (leading zeros included) and hashes. A tree that repeats a name, or ends inside an entry, is rejected, never shortened. DecodeTreeEntry called again and again gives the same entries one by one and then io.EOF.",
  ["inputs"], "all sequences of entries, and all truncations of them",
  "The tests see well-sorted trees with five modes and no hostile names, hashes or truncations.",
  ["tree.go", "ipldsch_satisfaction.go"], [("decoder", "tree.go DecodeTree, DecodeTreeEntry"), ("encoder", "tree.go encodeTree")], ["ParseObject", "Encode", "Tree iterator and lookup"])
p("C06", "A blob is read and written exactly",
  "A blob object of any content and length is decoded to a bytes node that holds the object's serialized form (header and content), and encoding that node writes exactly those bytes.",
  ["inputs"], "all contents and lengths", "The tests see a few small text blobs.",
  ["blob.go"], [("decoder", "blob.go DecodeBlob"), ("encoder", "blob.go encodeBlob")], ["ParseObject", "AsBytes", "Encode"])
p("C07", "Author, committer and tagger lines are split and rebuilt exactly",
  "Every identity line \"name <email> date timezone\" (date and timezone may be missing) is split into exactly those four parts, and the text built from the parts is the line again; spaces anywhere in name or email, empty parts, odd dates and timezones, and any other bytes are kept. A line that has no email in angle brackets is rejected.",
  ["inputs"], "all identity lines, as author, committer, tagger, and tagger of a mergetag",
  "The tests have seven fixed lines.", ["personinfo.go"], [("parser", "personinfo.go parsePersonInfo"), ("printer", "personinfo.go GitString")], ["ParseObject", "Encode", "PersonInfo.GitString"])
p("C08", "Links stand for git object ids without loss",
  "Every 20-byte object id in a commit, tag, mergetag or tree entry becomes the link with git's codec and that SHA-1, and every such link is written back as that id. Encoding a node with any other kind of link (another hash function or length, an undefined or foreign link) in any of those places fails with an error instead of writing an object with a wrong or malformed reference.",
  ["inputs"], "all object ids in all reference positions; all kinds of link",
  "The tests see the ids that occur in one archive, and never encode a foreign link.",
  ["util.go", "commit.go", "tag.go", "tree.go"], [("conversion", "util.go shaToCid, cidToSha"), ("validation", "util.go checkLink")], ["ParseObject", "Encode"])
p("C09", "Malformed input gives an error, never a panic, a hang or a made-up object",
  "Whatever bytes are decoded, into whatever node builder, the call returns: it does not panic, exhaust the stack or loop. Input with an unknown type, a header or size that is cut short or not a canonical decimal number, a reference that is not 40 hex digits, an identity line without email, an unterminated signature, a tree entry that is cut short, or a missing tree or object reference, is rejected with an error.",
  ["inputs"], "all byte strings; all sequences of header lines; all mutations of valid objects; all builders",
  "The tests have four malformed inputs.", ["unmarshal.go", "commit.go", "tag.go", "tree.go", "blob.go", "personinfo.go", "helper.go"],
  [("error returns", "all decoders"), ("hash length check", "util.go shaToCid")], ["Decode", "ParseObject", "DecodeCommit", "DecodeTag", "DecodeTree", "DecodeTreeEntry", "DecodeBlob"])
p("C10", "The declared size of an object is enforced and written correctly",
  "An object is accepted only if its body has exactly the size its header declares: every proper prefix of a valid object, every extension, and every other declared size is rejected. Encoding always declares the exact length of the body it writes.",
  ["inputs", "crash_points"], "all prefixes and extensions of valid objects, all wrong sizes", "The tests contain no truncated or extended object.",
  ["helper.go", "blob.go", "commit.go", "tag.go", "tree.go"], [("size check", "helper.go readBody"), ("blob size", "blob.go DecodeBlob"), ("header", "encode functions")], ["ParseObject", "Decode", "Encode"])
p("C11", "Decoding does not depend on how the bytes arrive, and read errors surface",
  "The result of decoding a stream depends only on its bytes: however it is divided into reads, with empty reads in between, and with the end reported along with or after the last bytes, the node is the same. If the reader fails at any point, decoding returns an error and no object.",
  ["fault_sequences", "inputs"], "all divisions of the input into reads (within bounds), all failure points",
  "The tests read from memory or files in one piece, and inject no failure.", ["unmarshal.go", "helper.go", "blob.go", "commit.go", "tag.go", "tree.go"],
  [("buffered reading", "bufio.Reader in Decode and ParseObject"), ("error propagation", "all decoders")], ["Decode", "ParseObject", "ParseCompressedObject", "DecodeTreeEntry"])
p("C12", "A failing writer makes encoding fail",
  "If the writer given to Encode fails at any point, having accepted any part of the data, Encode returns an error, and what it had written is a prefix of the object's bytes. If the writer never fails, Encode returns no error and has written exactly the object, whatever the sizes of its writes.",
  ["fault_sequences"], "all failure points of the writer, for all object types", "The tests only write to memory buffers.",
  ["blob.go", "commit.go", "tag.go", "tree.go"], [("error propagation", "encode functions")], ["Encode"])
p("C13", "All ways of decoding agree",
  "For every input, decoding through Decode (into a typed, representation or generic builder), ParseObject, ParseObjectFromBuffer, ParseCompressedObject, DecodeBlock, the registered codec and a link system, and the per-type decoders, either all fail or all produce nodes of equal content.",
  ["inputs", "configurations"], "all inputs and entry points", "The tests use two of the entry points, on valid objects.",
  ["unmarshal.go", "helper.go", "init.go"], [("dispatch on the type word", "unmarshal.go Decode, ParseObject"), ("codec registration", "init.go")], ["all decoding entry points"])
p("C14", "Encoding depends on a node's content, not on its implementation",
  "A commit, tag, tree or blob encodes to the same bytes whether the node is typed, its representation, a generic node with the fields in any order, or one that went through another codec such as DAG-JSON or DAG-CBOR. A node that is none of the four types is refused with an error, never a panic.",
  ["inputs", "configurations"], "all objects and node implementations, all field orders", "The tests encode only nodes that ParseObject returned.",
  ["marshal.go", "commit.go", "tag.go", "tree.go", "blob.go"], [("dispatch", "marshal.go Encode"), ("conversion", "encodeCommit's and encodeTag's AssignNode")], ["Encode"])
p("C15", "Calls are independent, and decoded nodes never change",
  "In any sequence of decodings and encodings, each call's result depends only on its own arguments, and a node once decoded keeps its value and its encoding, also after the input buffer is overwritten, other objects are decoded or encoded (from within a reader or writer of another call, too), and calls fail. Repeating a call gives the same result.",
  ["histories"], "all sequences of operations up to a bound", "Each test decodes an object once and drops it; none reuses a buffer or looks at a node again.",
  ["helper.go", "blob.go", "unmarshal.go", "marshal.go"], [("no shared state", "all decoders and encoders"), ("own buffers", "blob.go DecodeBlob")], ["ParseObjectFromBuffer", "Decode", "Encode"])
p("C16", "Decoding and encoding are safe to use concurrently",
  "Any number of goroutines may decode and encode at the same time, also encode and read one shared node, and each gets exactly the result it would get alone. No interleaving corrupts a result, deadlocks or races.",
  ["schedules"], "all interleavings up to a preemption bound", "Some tests run goroutines, but the scheduler picks one interleaving, and nothing looks for interference.",
  ["unmarshal.go", "marshal.go", "commit.go", "tag.go", "tree.go", "blob.go", "helper.go"], [("no shared state", "package-level variables")], ["Decode", "ParseObject", "Encode", "node reads"])
p("C17", "Builders accept exactly what the schema allows",
  "A typed or representation builder for a commit, tag, tree, tree entry, person or list accepts exactly the values of its schema type: every required field once, optional fields at most once, in any order, each of the right kind. Anything else (missing, repeated or unknown field, wrong kind, null) is refused with an error at the latest when finishing (one that names the fields, if required ones are missing), and an accepted value reads back unchanged.",
  ["histories", "inputs"], "all sequences of assembler operations up to a bound", "The tests build almost nothing by hand.",
  ["ipldsch_satisfaction.go", "ipldsch_types.go"], [("assembler state machines", "ipldsch_satisfaction.go *__Assembler, *__ReprAssembler")], ["NodeBuilder, MapAssembler, ListAssembler of every type"])
p("C18", "All views of a node are consistent, and none panics",
  "For every decoded node, lookups by name, index, path segment and key node, iterators, length, typed accessors and the representation agree with each other. Looking up what is not there, with any key or index, or asking a node for another kind gives an error, and iterating past the end gives an error, never a panic.",
  ["inputs", "histories"], "all nodes and all lookups within bounds", "The tests look up a few existing fields.",
  ["ipldsch_satisfaction.go"], [("generated node methods", "ipldsch_satisfaction.go")], ["Node interface of all types", "typed accessors"])
p("C19", "Paths through a graph of git objects resolve as the graph says",
  "With objects stored by their ids and loaded through a link system, every path (commit to tree, parents, tag target, tree entries through subtrees to blobs, submodule links included) resolves to the value the object graph has at that path, and every other path gives an error. A link that leads to an object of another type than expected gives that object or an error, never a panic.",
  ["inputs", "histories"], "all paths up to a depth in all small graphs", "No test follows a link.",
  ["ipldsch_types.go", "ipldsch_satisfaction.go", "init.go", "unmarshal.go"], [("codec registration", "init.go"), ("link nodes", "ipldsch_satisfaction.go")], ["LinkSystem.Load", "traversal"])
p("C20", "Decoding and encoding use memory in proportion to the object",
  "Decoding allocates no more than a fixed multiple of the bytes that actually arrive plus a constant, whatever size the header declares and however the content is divided into lines, words, entries or mergetags, and its stack use does not grow with the input. The same goes for encoding, in the size of the object.",
  ["inputs"], "all declared sizes and all families of growing inputs", "The tests measure no memory and contain no hostile header.",
  ["blob.go", "commit.go", "tag.go", "personinfo.go", "helper.go"], [("growing buffer", "blob.go DecodeBlob"), ("string builders", "commit.go, tag.go, personinfo.go")], ["ParseObject", "Decode"])
p("C21", "DecodeBlock accepts only blocks that are named as git objects",
  "Decoding a block succeeds only if its CID has git's codec and a SHA-1 of 20 bytes, and then exactly when parsing the block's data succeeds, with an equal node; a block with any other CID is refused with an error whatever its data is.",
  ["inputs"], "all CID versions, codecs, hash functions and lengths, with valid and invalid data", "No test calls it.",
  ["helper.go"], [("prefix check", "helper.go DecodeBlock")], ["DecodeBlock"])
p("C22", "A node that is built, encoded and decoded again is the same node",
  "Every commit, tag or tree node that is built through the builders from values git can hold (no newline in a header value, no NUL or space in a tree entry's name or mode where git ends it) encodes without error to the object git would write for it, and decodes to an equal node. Optional fields left out stay out.",
  ["inputs"], "all field values and subsets of optional fields within bounds", "The tests only encode nodes that were decoded before.",
  ["commit.go", "tag.go", "tree.go", "ipldsch_satisfaction.go"], [("builders", "ipldsch_satisfaction.go"), ("encoders", "encodeCommit, encodeTag, encodeTree")], ["NodeBuilder", "Encode", "Decode"])
p("C23", "A damaged compressed object is never taken for a valid one",
  "Reading a zlib-compressed object that is cut short at any byte or has any one bit changed gives an error or the original object, never a different object, and never a panic. What is no zlib stream at all (an object that is not compressed, another format) is refused.",
  ["fault_sequences", "crash_points"], "all truncations and all single-bit changes of compressed objects", "The tests read intact files only.",
  ["helper.go", "blob.go"], [("decompression", "helper.go ParseCompressedObject"), ("reading to the end, so that the checksum is verified", "helper.go, blob.go")], ["ParseCompressedObject"])
p("C24", "Decoding and encoding take time in proportion to the object",
  "The work of decoding an object, whether it is accepted or refused, is bounded by a fixed multiple of the bytes that actually arrive plus a constant, however the content is divided into lines, words, entries, parents, headers or mergetags and however the bytes arrive. The same goes for encoding a node of any implementation, in the size of the object. No input makes the work grow quadratically.",
  ["inputs"], "all families of growing inputs, complete, cut short and spoilt, through all entry points and node implementations",
  "The tests have no large objects and measure no work; quadratic behaviour looks right on every small input.",
  ["commit.go", "tag.go", "tree.go", "personinfo.go", "helper.go", "ipldsch_satisfaction.go"],
  [("line by line decoding", "commit.go decodeCommitLine, tag.go DecodeTag"), ("map of a tree's names", "ipldsch_satisfaction.go _Tree__ReprAssembler")], ["ParseObject", "Decode", "Encode"])
p("C25", "Changing one part of an object or graph changes that part and nothing else",
  "Replacing, adding or removing a value at a path of a commit, tag, tree or blob (typed or as its representation, by the copying that IPLD's transformations do through iterators and builders) gives an object in which exactly that part differs, and which is written accordingly; a change that the schema does not allow is refused with an error. The original and all earlier results stay as they were. A change below links rewrites every object on the way, stores each under its own git id, and leaves the other links alone. (A typed node that lacks an optional field may refuse the change instead, since absent values cannot be copied; it must not give a wrong result.)",
  ["histories", "inputs"], "all paths, values and node implementations, all short sequences of changes, all ways down a graph of objects",
  "The tests change nothing; the repository's own use of the nodes is to read them and to write them back whole.",
  ["ipldsch_satisfaction.go", "ipldsch_types.go", "marshal.go", "unmarshal.go"],
  [("builders fed by iterators", "ipldsch_satisfaction.go assemblers and iterators, AssignNode"), ("kind of node behind a link", "ipldsch_satisfaction.go LinkTargetNodePrototype"), ("storing under the git id", "marshal.go Encode, init.go")], ["traversal.FocusedTransform", "NodeBuilder", "MapIterator, ListIterator", "LinkSystem.Store"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q) + "\n")

"""The properties, in one place; mk.py writes properties.jsonl and MANIFEST.json from it."""
PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None, level="exploration"):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(),
                      mech=mech, technique=technique, note=note, observe=observe, state=state, level=level))


SEEDED = "Seeded random search: finds violations within the generated domain, never establishes absence. "
SHIMS = ("Runs the real src/keri code over stand-ins for the missing third-party packages (libsodium, lmdb, hio, blake3, ... in "
         "/verif/shims), which are trusted to follow those packages' documented behaviour. ")

P("S01", "Browser store acts as ordered maps and insertion-ordered sets",
  "The browser-backed store answers every read, write, removal, count and iteration exactly as an ordered map would: one value "
  "per key, one value per key and ordinal, an insertion-ordered set per key, or one such set per key and ordinal, each named "
  "sub-store on its own. Ordinal appends take the next number after the greatest present and refuse to pass the maximum, sets "
  "keep insertion order without repeats, and ranged, prefix, last and backward iterations return exactly the entries they name in order.",
  "histories inputs", "all operation histories over any keys, ordinals up to the maximum, values and separators",
  "Tests sample a few dozen fixed sequences with hand-picked keys; prefix-sharing neighbours, extreme ordinals and mixed "
  "removal and append orders are unbounded.",
  "src/keri/db/webdbing.py", [("WebDBer", "src/keri/db/webdbing.py")],
  "model-based property testing (Hypothesis) against a plain-Python reference model",
  SEEDED + "Keys are drawn from pools of prefix-sharing neighbours; result and full contents compared after every operation.",
  ["return values and iterators of the store operations"])

P("S02", "Browser store flush is durable and loses no later write",
  "After a flush completes, reopening the store yields exactly the contents, flags and version held when it ran; content changes "
  "of any kind reach storage with the next successful flush, including those whose earlier flush failed or was cancelled and those "
  "made while a flush was waiting on storage. A reopen never yields contents that no flush wrote, and clearing on open removes everything.",
  "histories fault_sequences schedules", "all histories of writes, flushes with failing, cancelled or interleaved storage syncs, and reopens",
  "Tests flush a handful of plain writes to a store that never fails; failures part way and writes during a pending sync are never exercised.",
  "src/keri/db/webdbing.py", [("WebDBer.flush/open, dirty flags", "src/keri/db/webdbing.py")],
  "stateful property testing with injected sync faults and owned await schedule",
  SEEDED + "The storage handle is an in-memory stand-in atomic per sub-store; overlapping flushes are only held to what a later flush covers.",
  ["reopened contents, flags and version", "count returned by flush"])

P("S03", "LMDB store acts as ordered maps, sets and duplicates",
  "The file-backed store answers every read, write, removal, count and iteration exactly as an ordered map would, for every value "
  "family it offers: single values, ordinals, insertion-ordered sets, ordinal sets, sorted duplicates, insertion-ordered duplicates "
  "and ordinal duplicates. The same contents are there after closing and reopening.",
  "histories inputs", "all operation histories over any keys, ordinals, values and separators",
  "Tests sample fixed sequences with the default separator; key neighbours, empty stores, extreme ordinals and empty values vary without bound.",
  "src/keri/db/dbing.py", [("LMDBer", "src/keri/db/dbing.py")],
  "model-based property testing (Hypothesis) against a plain-Python reference model", SEEDED + SHIMS,
  ["return values and iterators of the store operations"])

P("S04", "Typed stores keep exactly the typed values written",
  "Every typed store over the database keeps texts, Base64 tuples, primitives, tuples of primitives, messages, schemas and signing keys under "
  "multi-part keys exactly as the map, ordinal map, set or duplicates it is, whatever form the key takes and whatever the key separator, and reads "
  "them back as the same typed values, also after reopening. Values of the wrong kind and empty keys are refused without effect, and an "
  "encrypted signing key is never stored in the clear and reads back only with its decryption key.",
  "histories inputs", "all operation histories over any keys in any form, separators and values of each kind, and reopening",
  "Tests run one fixed sequence per class with the default separator.",
  "src/keri/db/subing.py", [("Suber and its subclasses", "src/keri/db/subing.py")],
  "model-based property testing (Hypothesis) against a plain-Python reference model", SEEDED + SHIMS,
  ["return values and iterators of the store operations", "raw stored signing keys"])

P("S05", "Record stores read back exactly the records written",
  "Records of every class the databases keep, with any values of their fields, read back equal from map, set and duplicate stores in JSON, "
  "CBOR and MessagePack, nested records included, and after reopening. The stores answer every read, write, removal, count and iteration "
  "as the map, set or duplicates they are, and refuse records of another class.",
  "histories inputs", "all operation histories over records of every class with any field values, serializations and separators",
  "Tests use one or two records of made-up classes.",
  "src/keri/db/koming.py src/keri/recording.py", [("Komer, IoSetKomer, DupKomer", "src/keri/db/koming.py"), ("dictify, datify", "src/keri/help/helping.py")],
  "model-based property testing (Hypothesis) against a plain-Python reference model", SEEDED + SHIMS,
  ["return values and iterators of the store operations"])

P("S06", "Every named store is its own and survives reopening",
  "What is written to or removed from one named store of a database shows in no other named store of it, nor in any other database, however "
  "keys coincide. Every named store holds the same entries after the database is closed and opened again.",
  "histories", "all histories of writes, removals and reopenings over all named stores of every database class",
  "Tests look at one named store at a time.",
  "src/keri/db/basing.py src/keri/app/keeping.py src/keri/vdr/eventing.py src/keri/app/notifying.py src/keri/app/storing.py src/keri/acdc/regbasing.py",
  [("reopen", "src/keri/db/basing.py"), ("LMDBer.reopen", "src/keri/db/dbing.py")],
  "stateful property testing against a plain-Python reference model of all named stores", SEEDED + SHIMS, ["contents of every named store"])

P("S07", "A crash inside one store operation loses nothing it should keep",
  "When the process ends in the middle of any single changing operation on a named store, the reopened store holds exactly what it held before "
  "the operation or exactly what it holds after it, never a mixture or a loss, and no other named store has changed. Doing the operation again "
  "then gives what it gives without a crash.",
  "crash-points histories", "all changing operations of all store kinds on all contents, cut at any write",
  "No test ends the process inside an operation.",
  "src/keri/db/dbing.py src/keri/db/subing.py src/keri/db/koming.py", [("pinIoSetVals, pinVals, pinIoDupVals", "src/keri/db/dbing.py"), ("pin, put, append, rem, trim", "src/keri/db/subing.py")],
  "property testing with injected crashes against a plain-Python reference model", SEEDED + SHIMS, ["contents of the named stores after reopening"])

P("T01", "Spec example checker accepts exactly the specs in sync",
  "The spec example checker succeeds exactly when every tagged example block of the spec document parses, no name is tagged "
  "twice, and the tagged names and values equal those of the manifest, whatever the fence language, formatting, key order or "
  "line ends. Any drift in a value, a missing, extra, duplicate or unparseable block makes it fail and name the block.",
  "inputs", "all manifests and documents, and every single drift between them",
  "Tests try one flat object with one changed flag; nesting, types and document layouts are unbounded.",
  "tools/check_spec_examples.py", [("parse_spec_blocks, compare", "tools/check_spec_examples.py")],
  "property testing over generated documents with one injected drift; oracle by construction", SEEDED,
  ["exit status, report lines, parsed blocks"])

P("T02", "Spec example tagger inserts only the right markers, once",
  "Tagging a spec document changes nothing except inserting marker lines, one directly before each unmarked code block whose value "
  "equals exactly one manifest object that is not already marked elsewhere. Running it again changes nothing, a dry run writes "
  "nothing, and a document with every manifest object present comes out accepted by the spec example checker.",
  "inputs", "all manifests and documents, with repeated, ambiguous, drifted and already marked blocks",
  "No tests exist for the tagger.",
  "tools/tag_spec_examples.py", [("tag, find_blocks, already_tagged", "tools/tag_spec_examples.py")],
  "property testing over generated documents; constructed expected output, idempotence, and the checker as differential oracle", SEEDED,
  ["tagged text, printed names, the written file"])

DIFF = "differential property testing against an independent reference codec, over generated and mutated inputs"

P("C01", "Primitives round-trip exactly in text and binary",
  "Every qualified primitive encodes to exactly the text and binary its code table entry defines, and parsing either form gives back "
  "its code, soft part and raw bytes, in any container, consuming exactly its own length from a stream. Input that is cut short is "
  "reported as a shortage, and any other malformed input is refused, never misread.",
  "inputs", "all codes, raw values, sizes up to and beyond the small-size limit, and all text and byte inputs",
  "Tests check one or two values per code and a few hand-made malformed inputs.",
  "src/keri/core/coring.py", [("Matter", "src/keri/core/coring.py")], DIFF, SEEDED + SHIMS,
  ["encoded text and binary, parsed code, soft part and raw bytes, refusal kind, bytes consumed"])

P("C02", "Indexed signatures round-trip exactly with both indices",
  "Every indexed signature encodes to exactly the text and binary its code table entry defines for its indices, and parsing gives "
  "back code, both indices and raw bytes, consuming exactly its own length. Indices out of the code's range or inconsistent with it "
  "are refused, cut-short input is a shortage, and other malformed input is refused.",
  "inputs", "all index codes, index pairs, raw values, and all text and byte inputs",
  "Tests check a few index values per code.",
  "src/keri/core/indexing.py", [("Indexer", "src/keri/core/indexing.py")], DIFF, SEEDED + SHIMS,
  ["encoded text and binary, parsed code, indices and raw bytes, refusal kind"])

P("C03", "Group counters frame exactly the material they count",
  "A group counter encodes its code and count exactly as the code table of its version defines, moving to the big form when the count "
  "needs it, and parsing text or binary gives both back. A group built by enclosing material declares exactly that material's size, "
  "and genus-version codes carry the version they were made from.",
  "inputs", "all counter codes of both table versions, all counts, all enclosed material, and all text and byte inputs",
  "Tests check a few counts per code and a few enclosures.",
  "src/keri/core/counting.py", [("Counter", "src/keri/core/counting.py")], DIFF, SEEDED + SHIMS,
  ["encoded text and binary, parsed code and count, declared byte counts"])

P("C09", "Typed values survive encoding and invalid ones are refused",
  "Numbers, decimals, datetimes, tags, versions, labels, Base64 and free texts, paths and nonces read back as the very value "
  "they were made from, in every encoded form, with the code the value's size calls for. A path resolves to exactly the value its "
  "labels or ordinals name, and values outside a type's domain are refused.",
  "inputs", "all values of each typed primitive, including those at code boundaries or starting with padding or escape characters",
  "Tests use a few values of each; padding, escape and size-boundary interactions are combinatorial.",
  "src/keri/core/coring.py src/keri/help/helping.py",
  [("Number, Seqner, Decimer, Dater, Tagger, Verser, Labeler, Bexter, Texter, Pather, Noncer", "src/keri/core/coring.py")],
  "round-trip and differential property testing against a reference codec", SEEDED + SHIMS,
  ["value, code and encoded forms, resolved values, refusals"])

P("C05", "Digests and self-addressing ids commit to exactly their content",
  "A digest verifies for exactly the bytes it was made over and no others, under each digest algorithm. Self-addressing data gets an "
  "identifier recomputable from its own content in every serialization, verification succeeds on the data as made, and fails "
  "when any committed field is altered, added, removed, reordered or retyped, when its version string is wrong, or the identifier differs.",
  "inputs", "all digest codes, serializations, self-addressed data and single alterations of it",
  "Tests compute a few fixed examples; which alterations stay undetected cannot be settled by examples.",
  "src/keri/core/coring.py", [("Diger, Saider", "src/keri/core/coring.py")],
  "differential and metamorphic property testing against independently computed digests", SEEDED + SHIMS,
  ["digest values, verify results, the saidified data"])

P("C06", "Signatures bind key and data; keys are reproducible from salt",
  "A signature made with a signing key verifies for exactly that data with exactly that key, indexed or not, and still after being "
  "encoded and parsed again; any altered data, signature or key fails verification. Keys derived from one salt, path, tier and "
  "code are always the same, as the key stretching defines, differ when any of these differ, and freshly made keys never repeat.",
  "inputs", "all signing schemes, seeds, data, index pairs, salts, paths, tiers and single-bit alterations",
  "Tests sign a few fixed messages with the default scheme.",
  "src/keri/core/signing.py src/keri/core/coring.py", [("Signer, Salter", "src/keri/core/signing.py"), ("Verfer, Cigar", "src/keri/core/coring.py")],
  "metamorphic and differential property testing with single-bit alterations", SEEDED + SHIMS,
  ["verify results, derived keys, signature codes and indices"])

P("C07", "Encrypted material opens whole, with the right key only",
  "What is encrypted to a public key decrypts, by every way of naming the private key, to exactly the original material with its "
  "code and transferability, under the cipher code its kind calls for. A wrong key, an altered or cut cipher, or an unsuitable "
  "seed or key is refused, never decrypted to something else.",
  "inputs", "all seeds, salts, qualified materials, streams, cipher codes and single alterations",
  "Tests encrypt one seed and one salt to one key.",
  "src/keri/core/signing.py src/keri/core/coring.py", [("Encrypter, Decrypter, Cipher", "src/keri/core/signing.py")],
  "round-trip property testing with generated alterations", SEEDED + SHIMS, ["decrypted material, cipher codes, refusals"])

P("C08", "A threshold is met by exactly the signer sets it says",
  "A signing threshold, whether a number, a weight list, several clauses or nested weight groups, is met by a set of signers "
  "exactly when exact arithmetic says so, counting each signer once, whatever their order or repeats. Every written form of one "
  "threshold (number, hex, list, text, qualified encoding) means the same and reads back as itself; malformed ones are refused.",
  "inputs", "all thresholds of every shape, all signer index lists, all written forms",
  "Tests check a few thresholds with a few index lists; weights, nesting and index sets are combinatorial.",
  "src/keri/core/coring.py", [("Tholder", "src/keri/core/coring.py")],
  "differential property testing against an exact-fraction model of thresholds", SEEDED + SHIMS,
  ["satisfaction results, size, limen, sith, json and numeric forms, refusals"])

P("C12", "Version strings and stream starts tell exactly what follows",
  "A version string of either format states protocol, versions, serialization kind and size exactly as given when written, and reads "
  "back the same wherever a message begins; every malformed or unknown one is refused. The first byte of a stream alone tells "
  "which encoding follows, the same way for all of them, and a byte that can start none is refused.",
  "inputs", "all protocols, versions, kinds, sizes, mutated and arbitrary strings, and all start bytes",
  "Tests check a few version strings and start bytes.",
  "src/keri/kering.py src/keri/core/parsing.py src/keri/core/coring.py",
  [("versify, deversify, rematch, smell, sniff", "src/keri/kering.py")],
  "differential property testing against a hand-written parser", SEEDED + SHIMS,
  ["written and parsed version strings, stream-start classification, refusals"])

KEL = [("Kever, Kevery", "src/keri/core/eventing.py"), ("Parser", "src/keri/core/parsing.py"), ("Baser logs and states", "src/keri/db/basing.py")]
KELF = "src/keri/core/eventing.py src/keri/core/parsing.py src/keri/db/basing.py"

P("E01", "Key state is exactly what the accepted events say",
  "After any sequence of key event messages, a validator's key state, its stored copy and its event logs are exactly what the KERI "
  "rules derive from the acceptable ones: keys, next digests, thresholds, witnesses after cuts and adds, configuration, sequence and "
  "prior links. A message that breaks a rule, is altered, or is misplaced leaves everything as it was, and a repeat changes nothing.",
  "histories inputs", "all event histories of an identifier, with any faults in content, placement, digests and signatures",
  "Tests walk a few well-formed sequences; combinations of recoveries, witness changes, thresholds and faults are unbounded.",
  KELF, KEL, "model-based property testing of event histories against an independent reference model of the KERI rules", SEEDED + SHIMS,
  ["key state, stored key state, event and first-seen logs after every message"])

P("E02", "Nothing takes effect without meeting the signing threshold",
  "An event is accepted only when genuine signatures by distinct keys, each at its own position in the key list, together meet the "
  "signing threshold in force, whether they arrive with it or in several parts; until then it changes no state. Exactly the genuine "
  "signatures given for an accepted event are stored with it, never a forged, misattributed or out of range one.",
  "histories inputs", "all sets of signatures over all thresholds, key lists and ways of splitting their delivery",
  "Tests sign with all keys or drop one; forged, repeated, misindexed and split signature sets are combinatorial.",
  KELF, KEL, "model-based property testing with generated signature sets against exact threshold arithmetic", SEEDED + SHIMS,
  ["key state after each part", "stored signatures of accepted events"])

P("E03", "A rotation takes effect only with keys committed to before",
  "A rotation is accepted only when, besides meeting its own signing threshold, genuine signatures by keys the previous establishment "
  "event committed to meet the threshold it set for them, each committed position counted once; holding the present signing keys is never "
  "enough. Keys not committed to may be added, committed ones held back or reordered, and after committing to nothing no event is accepted.",
  "histories inputs", "all revealed subsets and orders, thresholds, dual indices and signature sets, at every rotation of a history",
  "Tests rotate to all committed keys in order; partial, reserve and custodial rotations with bad signature sets are combinatorial.",
  KELF, KEL, "model-based property testing with generated key reveals against exact threshold arithmetic", SEEDED + SHIMS,
  ["key state after each message or part"])

P("E04", "First seen wins; only a recovery rotation may displace",
  "Once a validator accepted an event at a sequence number, no other event displaces it, whatever arrives in whatever order, except a "
  "rotation displacing interactions after the latest establishment event. The first-seen log only grows, is always a history the rules "
  "allow, and displaced events stay on record; later events chain to the recovered history only.",
  "histories schedules", "all rival and recovery events at any depth, in any order of arrival",
  "Tests try one duplicitous event and one recovery; interleavings of forks, recoveries and escrows are unbounded.",
  KELF, KEL, "model-based property testing of forked histories, replaying the log through a reference model", SEEDED + SHIMS,
  ["key state, event and first-seen logs after every message"])

P("E05", "Any order or splitting of delivery leads to the same state",
  "When all events of a valid history and their signatures and witness receipts have arrived and escrows were processed, a validator's "
  "key state, logs and stored signatures are those of in-order delivery, however they were ordered, split, repeated or joined in one "
  "stream, and whatever forged copies came along. With recoveries in the history this holds once the events were also seen in order.",
  "schedules histories", "all permutations and splittings of the messages of a history, and all points of escrow processing",
  "Tests deliver two or three events out of order; permutations with split signatures and receipts are factorial.",
  KELF, KEL, "metamorphic property testing over generated delivery schedules", SEEDED + SHIMS,
  ["key state, logs, stored signatures after the last delivery"])

P("E06", "Nothing takes effect without receipts of enough witnesses",
  "An event of an identifier with witnesses is accepted only when genuine signatures by as many distinct witnesses as its threshold asks, "
  "of the witness list in force with that event, have arrived, attached or as receipts, before or after it. Receipts by former witnesses, "
  "strangers or with wrong positions never count, and impossible thresholds or witness changes are refused.",
  "histories inputs schedules", "all witness lists, changes, thresholds and sets of witness signatures in any form and order of arrival",
  "Tests use full sets of witness signatures on a few events.",
  KELF, KEL, "model-based property testing with generated receipt sets", SEEDED + SHIMS,
  ["key state after each message", "stored witness signatures and receipts"])

P("E07", "A delegated event takes effect only when its delegator sealed it",
  "A delegated inception or rotation is accepted only when an accepted event of the very delegator it names contains a seal of exactly that "
  "identifier, number and digest, whatever reference came along and whether the seal arrives before or after it; a delegator that forbids "
  "delegation approves none. Until then the event changes no state, and once sealed it takes effect at every level of delegation.",
  "histories schedules inputs", "all chains of delegation, seals right and wrong, references and orders of arrival",
  "Tests delegate once or twice with the right seal in order; wrong seals, references and arrival orders are combinatorial.",
  KELF, KEL, "model-based property testing of delegation histories and delivery schedules", SEEDED + SHIMS,
  ["key states of all levels after each message", "recorded delegation approvals"])

P("E08", "Receipts are recorded exactly when they verify, with their event",
  "A receipt is recorded with an event exactly when its signature by a witness, watcher or other identifier genuinely verifies over that very "
  "event, with the keys the named establishment event set; witnesses' receipts are recorded by their place in the witness list of that event. "
  "Receipts that come before the events concerned are kept and recorded when those arrive; forged or misattributed ones never are.",
  "histories schedules inputs", "all receipts in any form, by anybody, genuine or faulty, before or after the events concerned",
  "Tests give one receipt of each kind in order.",
  KELF, KEL, "model-based property testing with generated receipts in generated orders", SEEDED + SHIMS,
  ["recorded witness signatures and receipts of every event"])

P("E09", "A replayed, reloaded or cleaned log rebuilds the same records",
  "Replaying a validator's log, whole, of one identifier, of a chain of delegators or resumed from any first-seen number, gives another "
  "validator the same key states, logs, signatures, receipts and delegation seals, with first-seen dates when cloned. Closing and opening "
  "the database between any messages, or cleaning it, loses and changes none of them, and sealing events are found exactly where they are.",
  "histories crash-points inputs", "all histories with recoveries, delegations, witnesses and receipts, all resume and restart points",
  "Tests clone a few plain logs; restarts within histories and logs with receipts and delegations are not sampled.",
  KELF + " src/keri/db/dbing.py", KEL, "metamorphic property testing: replay, restart and clean against the original and a reference model", SEEDED + SHIMS,
  ["records of every accepted event", "key states", "search results"])

P("E10", "The latest authorised signed reply about an endpoint is the one in force",
  "For each endpoint role, location and watched identifier, the reply in force is the latest one signed by the identifier it is about, "
  "by a threshold of the keys of one of its establishment events or by its nontransferable key: later keys win, then later dates. "
  "Order, partial signatures, waiting for keys, and altered, forged, misdirected or repeated copies never change which one it is, nor harm its record.",
  "histories inputs schedules", "all sets of replies, signers, key histories, faults and orders of arrival",
  "Tests accept a reply or two from one signer in order; reordered, partial, forged and repeated replies are not sampled.",
  "src/keri/core/routing.py src/keri/core/eventing.py", [("acceptReply, processEscrowReply", "src/keri/core/routing.py"), ("processReply*", "src/keri/core/eventing.py")],
  "stateful property testing against a reference model of best available data", SEEDED + SHIMS, ["endpoint records", "stored replies, dates and signatures"])

P("E11", "A crash at any write costs nothing but doing again what was being done",
  "A validator that ends at any write while taking in events, receipts or escrows, and is started again and given the interrupted message anew, "
  "comes to the key states, logs, signatures and receipts it has without the crash. Right after a crash its log is lawful, nothing it accepted before is lost, "
  "and no event is first seen twice.",
  "crash-points histories schedules", "all histories with recoveries and delegation, orders of delivery and up to three crash points each",
  "No test ends a validator inside its processing.",
  "src/keri/core/eventing.py src/keri/db/basing.py src/keri/db/dbing.py", [("Kever.logEvent, Kever.resume, Kevery", "src/keri/core/eventing.py"), ("Baser.reload", "src/keri/db/basing.py")],
  "differential property testing over generated histories with crash injection: crashed and restarted run against the uninterrupted model", SEEDED + SHIMS,
  ["key states, logs, stored events, signatures, receipts and escrows"])

STREAM = "src/keri/core/parsing.py src/keri/core/serdering.py src/keri/core/counting.py"

P("P01", "A stream parses into the same messages however it is framed and arrives",
  "Every message in a stream is handed on once, in order, to the handler for its kind with exactly the body and attachments written, "
  "whether loose, grouped, enclosed, nested or in groups of messages, in text or binary, in any serialization and stream version. "
  "Parsing the whole stream, one message at a time, or as it arrives cut anywhere gives the same messages.",
  "inputs schedules", "all streams of messages, attachment groups, framings and versions, and all ways to cut them",
  "Tests parse a few fixed streams per framing, whole; cut streams and mixed framings and versions are not sampled.",
  STREAM, [("Parser", "src/keri/core/parsing.py")],
  "property testing over generated streams written independently; oracle by construction and metamorphic over framing and chunking", SEEDED + SHIMS,
  ["calls made on the message handlers, with all attachments"])

P("P02", "A malformed message costs no more of a stream than its own group",
  "When a message or its attachments are malformed within a counted group, or its handler fails, every other message of the stream is still "
  "handed on exactly. Whatever bytes arrive, parsing ends without raising, messages wholly before the damage are handed on, and a sound "
  "stream given afterwards is parsed.",
  "inputs fault_sequences", "all malformations inside counted groups, failing handlers, and arbitrary byte damage",
  "Tests feed few malformed streams; damage in every framing and position is unbounded.",
  STREAM, [("groupParsator, msgParsator", "src/keri/core/parsing.py")],
  "property testing with injected malformation, and mutation fuzzing of generated streams", SEEDED + SHIMS, ["calls made on the message handlers", "termination"])

P("A01", "The key manager keeps, gives and hides exactly the right keys",
  "For every identifier the key manager gives as current exactly the keys it gave digests of before, derived from salt and path as defined or "
  "fresh at random, signs and opens with exactly the keys asked for, and erases only those told; all survive reopening and a crash at any write. "
  "With an encryption key set, no key or salt is ever stored in the clear, and changing or removing it keeps all keys readable; a wrong or missing "
  "seed, unknown keys or identifiers and malformed requests are refused without effect.",
  "histories crash-points inputs", "all histories of inceptions, rotations, ingestions, replays, signings, encryption changes and reopenings, and crash points",
  "Tests walk one history per algorithm; encryption changes, ingestion and crashes within histories are combinatorial.",
  "src/keri/app/keeping.py", [("Manager, Keeper", "src/keri/app/keeping.py")],
  "stateful model-based property testing with independent key derivation, raw storage search and crash injection", SEEDED + SHIMS,
  ["returned keys and digests", "signatures", "all stored entries"])

P("A02", "A local identifier does what it is told or refuses and stays as it was",
  "Every inception, rotation, interaction, signing and deletion of a local identifier gives the event and signatures asked for, which any validator accepts, "
  "or is refused and leaves everything as it was. All local identifiers, names and spaces are found again after reopening and keep working; "
  "a crash at any write leaves each request done or not done.",
  "histories crash-points", "all histories of local identifier requests, refusals, reopenings and crash points",
  "Tests make a few identifiers with default parameters and rarely reopen; refusals and crashes between are not sampled.",
  "src/keri/app/habbing.py src/keri/app/keeping.py src/keri/core/eventing.py", [("Habery, Hab, BaseHab", "src/keri/app/habbing.py"), ("Baser.reload", "src/keri/db/basing.py")],
  "stateful model-based property testing with a remote validator as second judge, restarts and crash injection", SEEDED + SHIMS,
  ["own and remote key states and logs", "events, signatures, names after reopening"])

P("D01", "A message reads back exactly as made and only as made",
  "A message of any type, protocol version and serialization has the size and identifiers its content gives, and reads back with exactly the "
  "fields, in order, it was made from: from text, binary or a stream, consuming exactly itself. It is refused when any byte, field, field order, "
  "serialization or version string is altered, even with size and identifiers recomputed where the field list or version string is wrong; a cut one is reported as short.",
  "inputs", "all message types, versions, serializations, digest kinds, field values and single alterations",
  "Tests make one or two messages per type with default values and alter a few.",
  "src/keri/core/serdering.py", [("Serder, SerderKERI, SerderACDC, Serdery", "src/keri/core/serdering.py")],
  "round-trip and differential property testing with generated alterations", SEEDED + SHIMS,
  ["raw bytes, fields, identifiers", "refusals"])

P("V01", "Registries and credentials change state only by anchored, backed events in order",
  "A registry event or a credential's issuance or revocation is accepted only when it continues what was accepted before at its number with the right prior "
  "reference, a key event of the registry's controller at the place given seals exactly it, and enough genuine signatures of the registry's backers are with it; "
  "a credential has state only in the registry that issued it, and only that registry revokes it. Everything accepted, its anchor and its verified backer "
  "signatures survive reopening and are replayed as they were. Sound events given early wait and are taken up once what they need arrives, in any order of arrival.",
  "histories", "all histories of two issuers' registries and credentials, anchored or not, backed or not, faulty or not, in any order of arrival, with restarts",
  "Tests walk one registry through one issue and revoke with each event anchored properly.",
  "src/keri/vdr/eventing.py", [("Tever, Tevery, Reger", "src/keri/vdr/eventing.py")],
  "stateful property testing against a reference model of registry rules", SEEDED + SHIMS,
  ["accepted events, registry and credential state, recorded anchors, replay"])
P("V02", "Only credentials issued, fitting their schema, with a sound chain are accepted",
  "A credential is accepted only when its own issuer's registry issued it, it fits its schema in any serialization, and every edge leads to an accepted, unrevoked "
  "credential that meets the edge's operators and schema; otherwise it is refused, or waits where what it lacks may still come and is asked for. Waiting ones are taken "
  "up in any order of arrival once nothing is missing, within the time they may wait, and accepted ones stay, indexed by issuer, subject and schema, over reopening; "
  "what is passed on or listed of accepted credentials, with their chains and anchors, is accepted by another validator.",
  "histories", "all chains of credentials with generated operators, schemas, revocations and faults, given in all orders",
  "Tests present one or two chains, complete and in order.",
  "src/keri/vdr/verifying.py", [("Verifier", "src/keri/vdr/verifying.py"), ("Reger", "src/keri/vdr/eventing.py"), ("Schemer", "src/keri/core/scheming.py")],
  "stateful property testing against a reference judgement of credentials", SEEDED + SHIMS,
  ["accepted credentials, indexes, cues, listings"])
P("C10", "Field maps keep meaning, order and digest in every serialization",
  "Every map of nested maps, lists, strings, numbers, truth values and nulls is written as exactly the defined bytes in JSON, CBOR, MessagePack and native CESR, text or "
  "binary, and reads back as the same map with the same types and label order, whatever follows it in a stream. A self-addressing map carries the digest of itself under "
  "its own digest code and is refused after any change of value, label or order; damaged native bytes are refused or read as another map that itself survives.",
  "inputs", "all maps over any labels, strings (including those that look like primitives), numbers and nesting, in four serializations",
  "Tests use a few fixed maps; strings that collide with encoded primitives and sizes at group boundaries are not sampled.",
  "src/keri/core/mapping.py src/keri/core/coring.py", [("Mapper", "src/keri/core/mapping.py")],
  "property testing against an independent writer, round trips and alteration", SEEDED + SHIMS,
  ["serialized bytes, maps read back, refusals"])
P("M01", "Every disclosure of a container has the same identifier and nothing else does",
  "A credential container has one identifier, that of its most compact form, whichever of its sections and nested self-addressed blocks are shown in full or only by their "
  "identifiers, in every serialization and message type; section messages and selective disclosures of an aggregate carry the identifiers the container commits to. Any "
  "change of what is shown, at any depth, or of any identifier in it, is refused when the container, section or disclosure is verified.",
  "inputs", "all containers with nested blocks, lists and aggregates, all choices of what is shown, all single alterations",
  "Tests compact a few fixed containers and hardly alter any.",
  "src/keri/core/mapping.py src/keri/core/serdering.py src/keri/acdc/messaging.py", [("Compactor, Aggor", "src/keri/core/mapping.py"), ("SerderACDC", "src/keri/core/serdering.py"), ("acdcmap, sectionate", "src/keri/acdc/messaging.py")],
  "property testing against an independent compaction, metamorphic disclosures and alteration", SEEDED + SHIMS,
  ["identifiers, bytes, verification results"])
P("C11", "Seals, blinded states and typed media keep and commit to their fields",
  "Seals, blinded registry states, typed media and first-seen stamps are written as their fields' primitives in order, alone or in groups of any size, and read back the "
  "same from text and binary whatever follows; a cut or mixed group is refused. Self-addressing ones carry the digest of their own fields and are refused after any change; "
  "a blinded state is opened exactly by the right nonce, or salt and number, with the right credential, state and binding among the candidates.",
  "inputs", "all records of every kind over their fields' domains, all group sizes, all choices of secrets and candidates",
  "Tests write one or two records of each kind.",
  "src/keri/core/structing.py", [("Structor, Sealer, Blinder, Mediar", "src/keri/core/structing.py")],
  "property testing against an independent writer, round trips and alteration", SEEDED + SHIMS,
  ["encoded records and groups, records read back, refusals, opened states"])
P("A04", "Peer messages take effect only when their sender signed them, whole, in turn",
  "A peer message is accepted, kept and handed to the handler of its route with its attachments exactly when signatures of its sender verify and meet the threshold of the "
  "establishment event they name, its handler does not refuse it and any sealed payload fits; partly signed ones or ones by a sender not yet known wait ten seconds, their "
  "signatures adding up. Copies which are unsigned, forged or by others change nothing; an accepted message passed on is accepted elsewhere, and in a credential exchange each "
  "message is answered at most once, by a kind which may follow it, carrying just what it names.",
  "histories inputs", "all sets of messages, signers, signing events and attachments, all orders of delivery, repetition and lapse of time, all conversations",
  "Tests deliver a few complete messages in order.",
  "src/keri/peer/exchanging.py src/keri/vc/protocoling.py src/keri/acdc/ipexing.py", [("Exchanger, serializeMessage, cloneMessage", "src/keri/peer/exchanging.py"), ("IpexHandler", "src/keri/vc/protocoling.py"), ("IpexHandler, apply, offer, grant", "src/keri/acdc/ipexing.py")],
  "stateful model-based property testing with independently signed messages, generated order, time and faults", SEEDED + SHIMS,
  ["handler calls", "accepted messages, waiting messages, recorded answers", "messages passed on"])
P("D02", "Builders make exactly the message asked for or refuse",
  "Every builder of key event, receipt, query, reply, exchange, registry, credential and state messages gives exactly the fields asked for, in order, with the defined "
  "defaults, size and identifiers, in any version and serialization; it refuses thresholds no set of the keys can meet, repeated or impossible witness, backer and cut lists, "
  "and impossible numbers. A message framed with signatures, receipts, seals and nested messages reads back with exactly those.",
  "inputs", "all arguments of the builders, in every written form, within and out of bounds; all sets of attachments and framings",
  "Tests build a few messages of each type with usual arguments.",
  "src/keri/core/eventing.py src/keri/vdr/eventing.py src/keri/acdc/messaging.py", [("incept, rotate, interact, receipt, query, reply, exchange, messagize, state", "src/keri/core/eventing.py"), ("incept, rotate, issue, revoke, state, vcstate", "src/keri/vdr/eventing.py"), ("regcept, blindate, update", "src/keri/acdc/messaging.py")],
  "property testing against an independent model of the fields, and round trips", SEEDED + SHIMS,
  ["fields and bytes of messages made, refusals, messages and attachments read back"])
P("E13", "A delegated rotation gives way only to one its delegator approved later",
  "A delegated rotation replaces the latest one at the same place exactly when its delegator's approval is in a later event, or later in the same event, or in a rotation "
  "which displaced the interaction holding the former approval, or in a delegated rotation which replaced the former approving one by this same rule. It must continue the "
  "event before the one replaced, revealing the keys that one was committed to and changing the witnesses it had; in every other case the earlier accepted rotation and the "
  "key state stay.",
  "histories schedules", "all histories of rival rotations and approvals over two levels of delegation, in all orders of delivery and repetition",
  "Tests have no rival delegated rotations.",
  "src/keri/core/eventing.py", [("Kever.validateDelegation, fetchDelegatingEvent, rotate", "src/keri/core/eventing.py")] + KEL,
  "stateful model-based property testing with an independent model of the rules", SEEDED + SHIMS,
  ["key state, first seen and event logs after every message"])
P("E12", "Queries are answered with exactly what was accepted, once it is there",
  "A query for an identifier's log, key state or mailbox is answered to the one who signed it with exactly the accepted messages from the number asked, its delegator's log, and "
  "the present key state, as soon as the identifier, event or seal asked for is accepted, and never sooner or twice; a query which cannot be answered yet waits five minutes. A "
  "signed notice of key state is kept exactly when it comes from the identifier, one of its witnesses or a configured watcher, is not behind the key state known and does not "
  "contradict the log.",
  "histories", "all histories of the identifier, all queries at every point of them, all notices",
  "Tests ask for a few complete logs.",
  "src/keri/core/eventing.py src/keri/app/querying.py", [("Kevery.processQuery, processQueryNotFound, processReplyKeyStateNotice", "src/keri/core/eventing.py")] + KEL,
  "stateful model-based property testing with independently written messages, generated time", SEEDED + SHIMS,
  ["answers cued, waiting queries", "kept notices"])
P("R01", "A request gets through once, in its window, with its sender's authority",
  "With request protection on, a dated message gets through only if its date is within the window set for its kind and route, an exchange message also within its exchange's, and "
  "its sender proves it by a seal in its accepted log or by true signatures of its current keys meeting its threshold, gathered over several deliveries if need be; and it gets "
  "through no second time, also after memory was pruned. Only true signatures are handed on. While running, windows narrow at once and widen only after the delay, and a "
  "change of windows which is invalid or leaves a covered kind uncovered changes nothing.",
  "histories", "all histories of messages, deliveries, times, prunings, key rotations and changes of windows",
  "Tests deliver single messages under one configuration.",
  "src/keri/core/kraming.py src/keri/core/eventing.py", [("Kramer.intake, kramit, changeConfig, reconcileConfig, Pruner", "src/keri/core/kraming.py"), ("Kevery.processMsg", "src/keri/core/eventing.py")],
  "stateful model-based property testing with independently written messages, generated time", SEEDED + SHIMS,
  ["messages let through and signatures handed on, answers", "remembered messages after pruning"])
P("A05", "Contacts, notices and signals say what was last recorded, and only if untampered",
  "A contact or note of one's own shows exactly the fields and picture last recorded of that identifier, until they are removed, found by any of its fields, and a signed record that was altered "
  "in the store is refused, never shown as recorded. Notices are listed newest part by part, each once, marked and removed one by one. A signal pushed is delivered once, the "
  "newest of its ckey, unless it expires first.",
  "histories", "all histories of recording, changing, removing, listing and finding, with altered stored records",
  "Tests record a few fields in one order.",
  "src/keri/app/organizing.py src/keri/app/notifying.py src/keri/app/signaling.py", [("BaseOrganizer, Organizer, IdentifierOrganizer", "src/keri/app/organizing.py"), ("Notifier, Noter", "src/keri/app/notifying.py"), ("Signaler", "src/keri/app/signaling.py")],
  "stateful model-based property testing", SEEDED + SHIMS, ["listed contacts, pictures and notices", "signals given"])
P("A08", "A mailbox hands its owner every message put in it, whole and in order",
  "Every message stored for a recipient under a topic is given to a reader of that topic in the order stored, whole and each once, wherever the reader stops and starts again, "
  "and a crash while storing neither loses another message nor shows a partial one. A message forwarded to a recipient through its mailbox or witness arrives there, as its sender "
  "signed it with what it carries, once the recipient polls, and a forward which is altered or unsigned is not stored.",
  "crash-points", "all histories of storing, taking out, crashing, reading and polling over topics, and of forwarding",
  "Tests store and poll a few messages without gaps or interruptions.",
  "src/keri/app/storing.py src/keri/app/forwarding.py src/keri/app/indirecting.py src/keri/app/httping.py", [("Mailboxer", "src/keri/app/storing.py"), ("Poster, StreamPoster, ForwardHandler", "src/keri/app/forwarding.py"), ("MailboxIterable, Poller", "src/keri/app/indirecting.py")],
  "stateful model-based property testing with injected crashes", SEEDED + SHIMS, ["messages given to readers", "messages parsed by the recipient"])
P("A09", "Endpoint look-ups and answers are exactly what stands authorised",
  "An endpoint is found under a controller and role exactly while the controller's newest accepted reply authorises it, with the locations its provider last announced and "
  "has not withdrawn, by provider, role and scheme asked for. An answer to another about an identifier's endpoints brings that other, who starts with nothing, to exactly the part "
  "of what stands that was asked for. An OOBI asked of a node is answered so exactly for its own identifiers and those it witnesses, once the latest event is fully witnessed and any delegator known.",
  "histories", "all histories of authorising, cutting, announcing, withdrawing and rotating, and of questions",
  "Tests look up a few standing endpoints.",
  "src/keri/app/habbing.py src/keri/app/agenting.py src/keri/end/ending.py", [("BaseHab.fetchUrls, fetchRoleUrls, endsFor, replyEndRole, replyLocScheme, fetchWitnessUrls, loadEndRole, loadLocScheme", "src/keri/app/habbing.py")],
  "stateful model-based property testing, differential against a fresh party", SEEDED + SHIMS, ["looked up urls", "what the other holds after the answer"])
P("S08", "Cleaning a database drops exactly what does not verify or waits",
  "Cleaning a database drops from an identifier's log the first event which does not verify again and those which rest on it, with their key state, "
  "and what was waiting. Everything else is as before: other logs with order, dates and receipts, key states, own identifiers, replies with their signatures and "
  "authorisations, locations and their endpoints, peer messages, contacts with pictures and other records; and nothing outside the database's directories is touched.",
  "histories", "all database contents, with one event tampered with or none",
  "Tests clean one log with an unsigned event added.",
  "src/keri/db/basing.py", [("Baser.clean, clonePreIter, cloneEvtMsg", "src/keri/db/basing.py")],
  "property testing over generated databases with tampered events, dump-based oracle", SEEDED + SHIMS, ["all records of the database before and after"])
P("A06", "Members of a group who agree end with the same log, signed by those agreed",
  "Members who propose and join a group's inception, interaction, rotation or role reply end, in whatever order, repetition or delay proposals reach each other and over "
  "restarts, with the same accepted log, each event there as soon as members enough to meet its own and the prior next threshold agreed and never before, signed by exactly "
  "those who agreed. A proposal is noted once per member, only if signed by its sender, unaltered and "
  "meant for a group the receiver is in, and never signed or accepted for a member who has not joined it.",
  "histories", "all histories of proposing, joining, altering, delaying, own rotations and restarts by members, with all thresholds",
  "Tests run single ceremonies in one order.",
  "src/keri/app/grouping.py src/keri/app/habbing.py", [("Multiplexor, Counselor, multisig*Exn, MultisigNotificationHandler", "src/keri/app/grouping.py"), ("GroupHab, makeGroupHab, joinGroupHab, loadHabs", "src/keri/app/habbing.py")],
  "stateful model-based property testing over several members", SEEDED + SHIMS, ["logs and signatures at every member", "proposals noted", "completion reported"])
P("V03", "A credential made here is complete exactly when anchored, receipted and taken",
  "A credential is only made for a known recipient, through one's own named registry and fitting its schema. Creation of a registry, issuance and revocation are accepted exactly when sealed in "
  "the issuer's log, in whatever order anchors are made, published only when all witnesses receipted the anchor, and complete only when published, each as recorded, over restarts. A credential "
  "sent to another, who has nothing, is taken by that other with all it is chained to, its subject known and its state the same as at the issuer.",
  "histories", "all histories of registering, issuing, revoking, anchoring, receipting, publishing, restarting and sending",
  "Tests issue one credential in one order with all receipts at once.",
  "src/keri/vdr/credentialing.py src/keri/vdr/eventing.py", [("Regery, Registry, Registrar, Credentialer, sendCredential, sendArtifacts, sendRegistry", "src/keri/vdr/credentialing.py"), ("Reger, Tevery escrows", "src/keri/vdr/eventing.py")],
  "stateful model-based property testing, differential against a fresh party", SEEDED + SHIMS, ["registry and credential logs", "what is published", "completion reported", "what another holds after sending"])
P("A10", "An OOBI given is followed to what verifies, whatever is answered",
  "Every OOBI given by its owner, or by an introduction signed by whom it introduces, is asked for and ends resolved or failed by its newest answer, or is asked again after a delay "
  "when not found, whatever is answered to it or to others, also over restarts; one made of several is resolved when all its parts are, and failed when one of them failed. Only what "
  "verifies is then known: logs and endpoints in answers as when given directly, a schema only under the digest asked for, a contact only under the name given or hinted for the "
  "identifier asked for. A well known OOBI of a known identifier authenticates it exactly on a successful answer.",
  "histories", "all histories of giving, introducing, answering with any content, waiting and restarting",
  "Tests follow a few OOBIs once, all answered well.",
  "src/keri/app/oobiing.py src/keri/core/scheming.py", [("Oobiery, Authenticator", "src/keri/app/oobiing.py"), ("Schemer", "src/keri/core/scheming.py")],
  "stateful model-based property testing, differential against a party given the same directly", SEEDED + SHIMS, ["state of each OOBI", "contacts, schemas, logs and endpoints known"])
P("A03", "Signature headers read back as written, and cover exactly what they name",
  "Groups of signatures written to a signature header are read back the same, each with its tag, kind, signer, ordinal and digest, however a server merges or spaces them, and a header "
  "which does not say whether signatures are indexed is refused. A signature made for a request verifies over exactly the named fields it has, in order, with the parameters that its input header is read back with, "
  "and not once one of them changed.",
  "inputs", "all signature groups, requests, covered fields, parameters and single changes",
  "Tests write a few fixed headers.",
  "src/keri/end/ending.py", [("signature, designature, siginput, desiginput", "src/keri/end/ending.py")],
  "round-trip and differential property testing", SEEDED + SHIMS, ["groups read back", "what a signature verifies over"])

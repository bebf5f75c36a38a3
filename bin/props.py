"""The properties; bin/gen.py turns this into properties.jsonl and MANIFEST.json."""
P = []
def prop(id, title, statement, over, text, why, files, claimed=True, reason="", note="", symbols=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  claimed=claimed, reason=reason, note=note, symbols=symbols or [], technique=technique))

prop("C01", "Progress reports are exact, bounded and complete",
     "The percentage, the finished/running/total counts and the description a task reports always equal the weighted sum over the phases started so far, never leave 0..100 and never move backwards while the phases only move forward. Marking a task done marks every phase below it done, and a done task all of whose planned phases were started reports 100. An observer running concurrently with the task only ever sees the state of the task at some moment during its call.",
     ["histories", "schedules"], "every sequence of weight/phase/update/done calls on a progress tree and every interleaving of one worker with concurrent observers",
     "the two tests walk one fixed sequence each, single-threaded",
     ["psi/utils/progress.h", "psi/utils/progress.cc"], symbols=["Progress::Get", "Progress::Done", "Progress::NextSubProgress"],
     note="TLC explores the progress-tree model exhaustively to 3 (4 in thorough) nodes; random call histories and concurrent read windows of the real class are validated against the same specification.")

PSI2NOTE = "TLC shows on every pair of small tables (all join types, either left side) that the per-party description used as oracle is the projection of the join; every recorded run of the real protocol (both parties as separate processes, real files) is then judged by it. Tables are random and bounded (up to ~18 rows with duplicates, plus runs of 2,000 to 67,000 rows); oblivious transfer and VOLE are replaced by their ideal functionalities, and elliptic-curve and hash arithmetic comes from OpenSSL."

prop("C02", "ECDH PSI yields exactly the intersection",
     "A two-party ECDH PSI run in which both parties complete leaves the party entitled to the result with exactly those of its own rows that the requested join keeps, each as often as the join says, whatever the curve, batch size, number and order of key columns, duplicate keys, row order and message timing. The reported counts (rows and distinct keys read, rows and distinct keys matched) are those of the two input files; a party that gets no result writes no output file and reports an intersection count of -1.",
     ["inputs", "schedules"], "every pair of input tables, supported curve, batch size and delivery schedule",
     "the unit tests run a few fixed key lists with the default batch size and one curve each",
     ["psi/algorithm/ecdh/ecdh_psi.cc", "psi/algorithm/ecdh/sender.cc", "psi/algorithm/ecdh/receiver.cc", "psi/interface.cc", "psi/utils/ec_point_store.cc"],
     symbols=["EcdhPsiContext::MaskSelf", "EcdhPsiContext::MaskPeer", "FinalizeAndComputeIndices"], note=PSI2NOTE)
prop("C06", "KKRT and RR22 PSI yield exactly the intersection across buckets",
     "A two-party KKRT or RR22 run in which both parties complete leaves the entitled parties with exactly the rows the requested join keeps, each as often as the join says, for every bucket size (including one key per bucket and empty buckets), in both RR22 communication modes, with duplicate keys and whatever the sizes of the two sides. The reported counts are those of the two input files, and a party that gets no result writes no output file and reports an intersection count of -1.",
     ["inputs", "schedules"], "every pair of input tables, bucket size, mode and delivery schedule",
     "the unit tests use a handful of fixed tables and one or two bucket sizes",
     ["psi/algorithm/kkrt/receiver.cc", "psi/algorithm/kkrt/sender.cc", "psi/algorithm/kkrt/kkrt_psi.cc", "psi/algorithm/rr22/receiver.cc", "psi/algorithm/rr22/sender.cc", "psi/algorithm/rr22/rr22_psi.cc", "psi/algorithm/rr22/rr22_oprf.cc", "psi/utils/bucket.cc", "psi/utils/hash_bucket_cache.cc"],
     symbols=["HandleBucketResultByReceiver", "HandleBucketResultBySender", "Rr22Runner", "KkrtPsiRecv"], note=PSI2NOTE)
prop("C10", "The identical-input shortcut never changes a result",
     "When both parties ask for the comparison of their inputs' digests, the outputs and reported counts are exactly those of the same run without it: for inputs with the same keys, with keys differing in a single row, with duplicates, in different orders, and for inputs whose keys merely spell the same text when written one after the other.",
     ["inputs"], "every pair of input tables of a run with the digest comparison on",
     "the tests compare one equal and one clearly different pair",
     ["psi/interface.cc", "psi/utils/table_utils.cc"], symbols=["AbstractPsiParty::CheckPeerConfig", "KeysHash"], note=PSI2NOTE)
prop("C13", "Inner, left, right, full and difference joins are exact",
     "For every join type, either choice of left side and tables with duplicate keys on both sides, each party's output file holds each of its own rows exactly as often as the join of the two tables does: once per matching row of the peer, unmatched rows exactly once when the join keeps them and never otherwise. Where both parties receive the result, a party's file has one line of null markers (the configured text in every column) for each row of the peer that the join keeps without a partner; where only one does, its file has none.",
     ["inputs"], "every pair of tables, join type, left side and protocol",
     "the tests check a few fixed tables with few duplicates",
     ["psi/utils/join_processor.cc", "psi/utils/advanced_join.cc", "psi/interface.cc"], symbols=["JoinProcessor::DealResultIndex", "JoinProcessor::GenerateResult"], note=PSI2NOTE)
prop("C14", "Corresponding lines of the two parties' outputs have equal keys",
     "When both parties receive the result and alignment is left on, the two output files have the same number of lines and line n of one carries the same key as line n of the other, or one of them is a null line and the other a row whose key the peer does not have. This holds for every join type, in whatever columns and order the keys stand, with or without the promise that keys are unique.",
     ["inputs"], "every pair of tables, join type and key column layout",
     "the tests compare outputs for one column layout, with keys in the first column",
     ["psi/utils/join_processor.cc", "psi/utils/index_store.cc", "psi/interface.cc"], symbols=["JoinProcessor::GenerateResult"], note=PSI2NOTE)
prop("C41", "A run's result depends only on its own inputs",
     "Running again over the same paths after an input file was rewritten, or where an earlier run left an output file, gives the result of the files as they are at that moment. Nothing an earlier run left beside the inputs or at the output path shows up in a later result.",
     ["histories"], "every sequence of runs that rewrite inputs and reuse output paths",
     "tests start from fresh directories",
     ["psi/utils/table_utils.cc", "psi/utils/join_processor.cc", "psi/interface.cc"], symbols=["Table::MakeFromCsv", "KeyInfo"], note=PSI2NOTE)

RESNOTE = "TLC explores the checkpoint protocol with a stop at every step (up to 2 stops, 3-4 keys a side) and shows the final result exact and always reached. Real parties are ended at link and file-write steps (and by cut connections), started again with the same configuration and judged by the join specification; the number of stops per task is at most 3 and files survive in the order they were written (a stop of the process, not a power loss)."
prop("C05", "An interrupted ECDH task with recovery on resumes to the exact result",
     "When an ECDH task with recovery enabled is interrupted at any point of its run on either side (the process stops or the connection breaks), no party is left waiting forever, and restarting both parties with the same configuration and inputs completes and yields exactly the result an uninterrupted run gives, for either choice of who receives the result, with duplicate keys and however often it is interrupted.",
     ["crash points", "histories"], "every crash point of either party, repeated",
     "the recovery tests stop a run at one fixed batch",
     ["psi/algorithm/ecdh/ecdh_psi.cc", "psi/checkpoint/recovery.cc", "psi/algorithm/ecdh/receiver.cc", "psi/algorithm/ecdh/sender.cc", "psi/utils/hash_bucket_cache.cc"],
     symbols=["RunEcdhPsi", "RecoveryManager::MarkOnlineStart", "EcdhPsiContext::MaskSelf"], note=RESNOTE)
prop("C07", "An interrupted KKRT or RR22 task with recovery on resumes to the exact result",
     "When a KKRT or RR22 task with recovery enabled is interrupted at any point of its run on either side, no party is left waiting forever, and restarting both parties with the same configuration and inputs completes and yields exactly the result an uninterrupted run gives, for every bucket size.",
     ["crash points", "histories"], "every crash point of either party, repeated",
     "the recovery tests stop a run at one fixed bucket",
     ["psi/algorithm/kkrt/receiver.cc", "psi/algorithm/kkrt/sender.cc", "psi/algorithm/rr22/receiver.cc", "psi/algorithm/rr22/sender.cc", "psi/checkpoint/recovery.cc", "psi/utils/index_store.cc", "psi/utils/multiplex_disk_cache.cc"],
     symbols=["RecoveryManager::UpdateParsedBucketCount", "HandleBucketResultByReceiver"], note=RESNOTE)
prop("C08", "A checkpoint is only used for the task it was written by",
     "When an interrupted task with recovery is started again after its configuration or the keys in its input changed, a party whose recovery folder holds a checkpoint of the earlier task refuses to run. A restart never reports a result other than that of the current inputs: a change of rows or columns that leaves the keys as they were either completes with the result of the current inputs or is refused.",
     ["histories"], "every change of inputs or configuration between an interruption and the restart",
     "no test changes anything between the two runs",
     ["psi/checkpoint/recovery.cc", "psi/interface.cc", "psi/utils/table_utils.cc"], symbols=["RecoveryManager::MarkInitEnd"], note=RESNOTE)

WIRENOTE = "TLC checks the symbolic (Dolev-Yao) description for all key sets over 3-4 keys: a party without result can work out nothing, an entitled one exactly the intersection. Every message of recorded ECDH runs is decomposed into terms (the harness learns both private keys by recording the draws of random bytes) and replayed as steps of that specification; for KKRT and RR22, whose oblivious transfer is an ideal functionality here, the check is differential: no byte string that is a fixed function of the keys may recur from session to session. Computational hardness is assumed."
prop("C03", "A party not entitled to the result learns nothing about it",
     "When the result is not broadcast, the sender of an ECDH, KKRT or RR22 run writes no output file and reports an intersection count of -1, and what it receives does not depend on which keys the two parties share or how often the receiver's keys repeat: for two inputs of the receiver with as many distinct keys, the messages to the sender have the same number and sizes and differ only in randomness.",
     ["inputs"], "every pair of inputs of the other party", "no test looks at the messages",
     ["psi/algorithm/ecdh/ecdh_psi.cc", "psi/utils/bucket.cc", "psi/interface.cc", "psi/algorithm/kkrt/kkrt_psi.cc", "psi/algorithm/rr22/rr22_psi.cc"],
     symbols=["EcdhPsiContext::MaskPeer", "HandleBucketResultByReceiver", "AbstractPsiParty::Finalize"], note=WIRENOTE)
prop("C04", "Keys cross the wire only freshly masked",
     "In an ECDH run each party sends each of its keys exactly once, hashed to the curve and masked with its private exponent, and returns the peer's keys masked a second time only to a peer entitled to the result; no key, unmasked point or echo of them is ever sent. In ECDH, KKRT and RR22 runs no byte string on the wire other than the agreed result is a fixed function of the keys: masks are drawn anew for every session.",
     ["inputs", "histories"], "every message of every run", "no test looks at the messages",
     ["psi/algorithm/ecdh/ecdh_psi.cc", "psi/cryptor/ecc_cryptor.h", "psi/cryptor/ecc_cryptor.cc", "psi/algorithm/kkrt/kkrt_psi.cc", "psi/algorithm/rr22/rr22_psi.cc", "psi/algorithm/rr22/rr22_oprf.cc"],
     symbols=["EcdhPsiContext::MaskSelf", "IEccCryptor::IEccCryptor", "Rr22OprfReceiver"], note=WIRENOTE)

AGNOTE = "TLC explores the handshake and the staged run of two parties with every configuration pair over two shared and one private field and a failure at any step. Real runs cover each configuration field in turn with all three protocols, or a stop, broken network or bad file at a random point."
prop("C09", "Parties whose configurations disagree refuse to run",
     "Two parties whose configurations differ in anything both must share (protocol, roles that do not complement each other, curve, batch or bucket size, communication mode, broadcast, join type, left side, digest comparison, null marker, recovery on or off) both end with an error, write no output and exchange nothing but their configurations. The same holds when one party's own configuration is unusable (no keys, a key named twice or not in the file, missing file, unsupported file type, no curve), while parties that differ only in private settings (paths, key names, alignment, logging) run and get the exact result.",
     ["inputs"], "every pair of configurations", "the tests try two or three mismatches",
     ["psi/interface.cc", "psi/utils/join_processor.cc", "psi/utils/table_utils.cc"], symbols=["AbstractPsiParty::CheckPeerConfig", "AbstractPsiParty::CheckSelfConfig"], note=AGNOTE)
prop("C11", "A failure on one side never leaves the other waiting or wrong",
     "When one side of a two-party run stops, loses the network, or cannot read its input or write its output, at whatever point, every party of the run comes to an end within the link's time limits. The party that failed reports an error, a run in which an input cannot be read fails on both sides, and any party that does report success has the exact result.",
     ["crash points", "schedules"], "every failure point of either party", "no test lets a party fail in the middle of a run",
     ["psi/utils/sync.h", "psi/interface.cc", "psi/algorithm/kkrt/kkrt_psi.cc", "psi/algorithm/rr22/rr22_utils.cc", "psi/algorithm/ecdh/ecdh_psi.cc"], symbols=["SyncWait", "AbstractPsiParty::Finalize"], note=AGNOTE)

UBNOTE = "TLC explores the cache life cycle of server and client (generate, transfer, online, a stop at every step, repeated) with 2-3 keys a side and shows every completed online run exact. Histories of real runs of both parties over the same folders, with stops at link and file-write steps, are validated against the same specification; both parties are separate processes and files survive a stop in the order they were written."
prop("C20", "Unbalanced PSI is exact in every mode",
     "In unbalanced ECDH PSI, full runs and any history of cache generation, cache transfer, offline and online runs leave each entitled party with exactly those of its own rows that the join asks for, each as often as the join says, whether the server, the client or both get the result, for every curve, batch size, key layout and number of duplicates. Lines of two results correspond when alignment is on, the reported counts are those of the inputs, and a party that gets no result writes no output file and reports an intersection count of -1.",
     ["inputs", "histories"], "every pair of inputs and every history of the four stages",
     "the tests run each mode once over one fixed pair of tables",
     ["psi/algorithm/ecdh/ub_psi/server.cc", "psi/algorithm/ecdh/ub_psi/client.cc", "psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.cc", "psi/algorithm/ecdh/ub_psi/basic_ecdh_oprf.cc", "psi/utils/ub_psi_cache.cc", "psi/utils/ec_point_store.cc"],
     symbols=["EcdhUbPsiServer::Online", "EcdhUbPsiClient::Online", "EcdhOprfPsiServer::FullEvaluate"], note=UBNOTE)
prop("C21", "A stopped unbalanced PSI stage never leads to a wrong result",
     "When a stage of unbalanced PSI is stopped at any point on either side, a later online run either refuses or yields the exact result, and running the stages again from the cache generation on yields the exact result. A stopped online run leaves the cache usable, and no party is left waiting forever.",
     ["crash points", "histories"], "every crash point of every stage, and what follows it",
     "no test stops a stage",
     ["psi/algorithm/ecdh/ub_psi/server.cc", "psi/algorithm/ecdh/ub_psi/client.cc", "psi/utils/ub_psi_cache.cc", "psi/utils/ec_point_store.cc"],
     symbols=["UbPsiCache::Flush", "EcdhUbPsiClient::OfflineTransferCache"], note=UBNOTE)
prop("C22", "Unbalanced PSI shows each side only masked keys",
     "In unbalanced PSI the cache a client receives holds each of the server's distinct keys once as a function keyed by the server's secret, in an order that tells nothing about the keys; a client sends its keys only freshly blinded, and the answers are matched by the client to its own keys only if it is entitled to the result (otherwise they come in fresh random order). No other fixed function of the keys is sent, and what a party without result receives does not depend on which keys match beyond their number.",
     ["inputs", "histories"], "every message of every run", "no test looks at the messages",
     ["psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.cc", "psi/algorithm/ecdh/ub_psi/basic_ecdh_oprf.cc", "psi/algorithm/ecdh/ub_psi/basic_ecdh_oprf.h", "psi/algorithm/ecdh/ub_psi/server.cc", "psi/algorithm/ecdh/ub_psi/client.cc"],
     symbols=["EcdhOprfPsiServer::FullEvaluate", "EcdhOprfPsiServer::RecvBlindAndShuffleSendEvaluate", "BasicEcdhOprfClient::Blind"], note="TLC checks the symbolic description of caches, blinded keys and answers over 3 keys. Every message of recorded runs is decomposed into terms (server key known, client blinds recorded at the random source) and replayed as steps of that specification. Computational hardness is assumed.")

prop("C12", "Key extraction and the digest of a table are exact",
     "Sorting a table by its key columns keeps every line, orders by key and keeps lines of one key in their old order; the key list then holds each distinct key once with the place of its first line and the number of further lines, whatever the key columns, their order, the batch size it is written or read with, and whether it is read back later. Two tables have the same digest exactly when they have the same keys with the same numbers of lines (for keys promised to be unique: the same keys in the same order), and the reported counts of lines, distinct keys and repeated keys are those of the table.",
     ["inputs"], "every table, choice of key columns and batch size", "the test sorts one fixed table of a few lines",
     ["psi/utils/table_utils.cc", "psi/utils/key.cc", "psi/utils/arrow_csv_batch_provider.cc"], symbols=["KeyInfo::Make", "SortedTableKeysInfoProvider", "MultiKeySort"],
     note="Real tables (1-3 key columns, odd spellings, up to 700 lines, batches from 1 key up) are judged by the specification of sorting, grouping and digests, which TLC explores for all small tables. Keys holding a comma or a quote are left out.")
prop("C15", "Bucket stores lose, invent and misplace nothing",
     "What is written to a bucket store is read back exactly once, with its running number, its bytes (any bytes) and its duplicate count, from the bucket that the item alone determines, in the order written. That still holds after the process stops and the store is opened again and cut back to a number of items that had been flushed, whatever was written after them.",
     ["inputs", "crash points"], "every list of items, number of buckets, and stop followed by a restart",
     "the tests write one fixed list and never reopen a store",
     ["psi/utils/hash_bucket_cache.cc", "psi/utils/multiplex_disk_cache.cc", "psi/utils/io.cc"], symbols=["HashBucketCache::Truncate", "HashBucketCache::WriteItem"],
     note="TLC explores the store with reopening; recorded lives of real stores (several per case, processes killed between calls, torn last lines) are validated step by step. Stop of the process, not power loss.")
prop("C16", "The index file keeps what was committed, in order",
     "Indices and counts handed to the index file and committed (or closed) are read back once each, in the order written and with their counts, by readers started at any time, also after later writers appended to the file. When the process stops, everything committed remains; opening with truncation starts afresh, and indices kept in memory come out in ascending order with their own counts.",
     ["histories", "crash points"], "every history of writers, commits, stops and readers",
     "the test writes two fixed lists once",
     ["psi/utils/index_store.cc"], symbols=["IndexWriter::Commit", "FileIndexReader", "MemoryIndexReader"],
     note="TLC explores all short histories; recorded lives of real files with killed writers are validated step by step. Indices below 2^63.")
prop("C17", "Batch reading hands out every item once, with its data",
     "Reading a source in batches yields full batches and one last shorter one, every item exactly once and in order, with its own label or duplicate count, and nothing more after the end, for lists, CSV files with any columns and for the key lists the protocols read. Shuffled reading also hands out every item once with its place in the source, its running number and its own duplicate count, also to several threads at once, and the order is drawn afresh each time.",
     ["inputs", "schedules"], "every source, batch size and set of readers", "the tests read a few short lists",
     ["psi/utils/batch_provider_impl.cc", "psi/utils/arrow_csv_batch_provider.cc", "psi/utils/table_utils.cc"], symbols=["SimpleShuffledBatchProvider::ReadNextShuffledBatch", "ArrowCsvBatchProvider::ReadBatch", "MemoryBatchProvider"],
     note="TLC explores batching and shuffling of short sources; real providers of all kinds, up to 3,000 items, are validated read by read.")
prop("C18", "Cuckoo placement puts every input in exactly one place",
     "After a successful insertion every input is in exactly one bin that one of its hash functions names, recorded with that function, or in the stash, which never exceeds its size; inserting in one go or in parts makes no difference to this. An insertion that does not fit is reported as an error, and with the parameters selected for the number of inputs it fits.",
     ["inputs"], "every set of code words, number of hash functions, bins, stash size and insertion order",
     "the test inserts random words at a few sizes", ["psi/utils/cuckoo_index.cc", "psi/utils/cuckoo_index.h"], symbols=["CuckooIndex::Insert", "CuckooIndex::PutToStash", "CuckooIndex::MinCollidingHashIdx"],
     note="TLC runs the insertion for every assignment of candidate bins at small sizes; real insertions (1 to 400 inputs, poor and good code words) are judged by the same definition.")
prop("C19", "The check of an input file accepts and digests exactly what it should",
     "The check of an input file fails if the file starts with a byte order mark, has an empty key field or, when asked to look, a repeated key, and succeeds otherwise with the number of lines. Its digest is equal for two files exactly when they hold the same keys in the same order, and it leaves no temporary file behind.",
     ["inputs"], "every input file", "the tests use four small files", ["psi/utils/csv_checker.cc"], symbols=["CsvChecker::CsvChecker"],
     note="Random small files over a two-letter alphabet (so that equal spellings with different cuts are frequent) are judged by the specification.")
prop("C27", "Masking points commutes and distinct inputs stay distinct",
     "On every curve and implementation, masking points with several private keys gives the same value in any order, different inputs or different sets of keys give different values, and writing a point down and reading it back changes nothing. A key restored from its bytes behaves as the original in any implementation of the same curve, a value's length is the one announced, and private keys of independent parties differ.",
     ["inputs"], "every input, batch of points, order of masking, curve and implementation",
     "the tests mask one batch with two keys on some curves", ["psi/cryptor/ecc_cryptor.cc", "psi/cryptor/sm2_cryptor.cc", "psi/cryptor/sodium_curve25519_cryptor.cc", "psi/cryptor/ipp_ecc_cryptor.cc", "psi/cryptor/fourq_cryptor.cc", "psi/cryptor/cryptor_selector.cc"],
     symbols=["IEccCryptor::EccMask", "CreateEccCryptor"],
     note="Recorded hashing, masking and serialization with six holders of three keys per case is validated against the symbolic specification of points as terms. The curve libraries themselves are replaced by equivalents over OpenSSL, so their arithmetic is assumed.")
prop("C28", "Messages arrive as they were sent",
     "Every kind of message the protocols write down (batches of ciphertexts, items of any bytes with duplicate counts, index lists, sizes) reads back as what was put in. The pairwise links derived from a group of parties connect the two parties they are made for and nobody else: what one puts in, the other gets, once and in order, whatever travels on other links.",
     ["inputs", "schedules"], "every message content and every pattern of pairwise traffic among 2 to 4 parties",
     "no test covers the encodings or pairwise links", ["psi/utils/communication.h", "psi/utils/communication.cc", "psi/utils/serialize.h", "psi/utils/serializable.proto"],
     symbols=["PsiDataBatch::Serialize", "CreateP2PLinkCtx"],
     note="TLC explores pairwise channels; recorded traffic over real pairwise links of 2-4 parties and random messages of every kind are validated.")
prop("C23", "Three-party ECDH yields the common items and hides who shares what",
     "Three-party ECDH intersection over lists gives the receiver, and with broadcasting everyone, exactly the items all three hold, once each, and nobody else anything; empty sets and any curve included. The three exchange items only masked by the keys their protocol step calls for, every key of every run is fresh, and the party that computes the meeting of its own set with another's gets its items back in an order unrelated to the one it sent, so that it learns only how many match.",
     ["inputs"], "every three sets, receiver, curve and broadcast choice", "the tests run a few fixed sets and look at no message",
     ["psi/algorithm/ecdh/ecdh_3pc_psi.cc", "psi/legacy/ecdh_3party_psi.cc"], symbols=["ShuffleEcdh3PcPsi", "MaskMaster", "PartnersPsi"],
     note="TLC explores the exchange of symbolic terms for all sets over a small universe; 110 recorded runs are decoded with the parties' recorded keys, every message mapped to terms and validated step by step; 220 results are judged.")
prop("C24", "Multi-party PSI with a helping server yields exactly the common items",
     "The server-aided multi-party intersection among three or more parties gives the receiver, and with broadcasting everyone, exactly the items all parties hold, whatever the sets, ranks of the special parties and number of threads. What a party puts on the wire in one run does not appear again in another run on the same sets.",
     ["inputs"], "every number of parties from 3 to 7, every sets and assignment of the special ranks",
     "the test uses one large common block for every party and no party holds an item that some others lack",
     ["psi/algorithm/nty/nty_mp_psi.cc", "psi/algorithm/nty/server_aided_psi.cc", "psi/algorithm/rr22/okvs/baxos.cc", "psi/algorithm/rr22/okvs/paxos.cc"], symbols=["NtyMPsi::Run", "ServerAidedTwoPartyPsi::ServerAidedPsi", "Paxos::Encode"],
     note="TLC compares decoded values of all sets over a small universe symbolically, where an encoded table gives junk for what was not put in; that assumption was false in the code (fixed). 300 real runs of 3 to 7 parties are judged.")
prop("C25", "Intersections among many parties and by bucket are exact",
     "An n-party intersection, ECDH or KKRT, over lists gives the receiver, and with broadcasting everyone, exactly the items all parties hold, once each; every other party gets nothing. The file based runner writes for every party with a result its own lines of the common keys (sorted outputs of all parties correspond line by line) with the right counts, leaves the other files alone and no temporary file. The bucket operators report per bucket each common item with the number of times the peer holds it.",
     ["inputs"], "every number of parties, sets, sizes, receiver, protocol, broadcasting, sorting and number of buckets",
     "the tests use a few fixed sets", ["psi/legacy/kkrt_2party_psi.cc", "psi/legacy/nparty_psi.cc", "psi/legacy/bucket_psi.cc", "psi/legacy/memory_psi.cc", "psi/legacy/base_operator.cc"],
     symbols=["NpartyPsiOperator::Run", "BucketPsi::Run", "PsiBaseOperator", "RunPsi"],
     note="TLC explores the rounds of pairwise intersections for 2 to 6 parties with all sets over two items; about 860 runs of real parties over in-process links are judged by the same definition.")
prop("C26", "Differentially private PSI drops, keeps and adds items as its parameters say",
     "The noisy intersection reports to the receiver only items of its own, and the counts of what was sampled out, dropped and added agree with what is reported: every reported item is common or one of the added, and each number stays within what the two sets allow. With certain rates the result is the exact intersection (nothing if all of the receiver's items are common), the other party learns no more than the size, and with uncertain rates sampling, dropping and adding happen at the configured rates and afresh in every run.",
     ["inputs"], "every two sets, sampling rate, privacy parameter and curve",
     "the test compares statistics of one size of sets", ["psi/legacy/dp_psi/dp_psi.cc", "psi/legacy/dp_psi/dp_psi_utils.cc", "psi/legacy/dp_2party_psi.cc"], symbols=["RunDpEcdhPsiAlice", "RunDpEcdhPsiBob", "BernoulliSamples"],
     note="TLC enumerates all outcomes of the sampling, dropping and adding for small sets and checks that the accounting identities characterise them; real runs (sets to 900 items) are judged by these identities and by intervals of seven standard deviations.")
prop("C35", "A limited intersection never exceeds its limit",
     "With a limit on the intersection, an ECDH or unbalanced PSI run behaves exactly as one in which only some of the common keys (as many as there are, but no more than the limit; the same ones for both parties) match: outputs of every join type and duplicate keys, reports, aligned outputs, and a count file naming the real and the limited number of common keys for whoever gets the result. This holds also for equal inputs, with the identical-input shortcut asked for, and after an interrupted task with recovery was started again; parties naming different limits get no more than the smaller one. The lists of matching places the parties exchange are never longer than the limit, and the order in which the answering party returns the other one's items is shuffled anew in every run.",
     ["inputs", "crash points", "histories"], "every pair of tables, limit, join type, restart point", "the tests run a few unique-key joins of consecutive numbers",
     ["experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc", "experiment/psi/threshold_ecdh_psi/sender.cc", "experiment/psi/threshold_ecdh_psi/receiver.cc",
      "experiment/psi/threshold_ub_psi/client.cc", "experiment/psi/threshold_ub_psi/server.cc", "experiment/psi/threshold_ub_psi/threshold_ecdh_oprf_psi.cc", "psi/interface.cc"],
     symbols=["ThresholdEcdhPsiCtx::MaskAndShufflePeer", "ThresholdEcdhPsiReceiver::ComputeAndStoreIndex", "ThresholdEcdhUbPsiClient::ResizeIntersection"],
     note="TLC explores limited joins of small tables; recorded runs of both kinds, with and without interruption, and the lists of places on the wire are validated.")
prop("C36", "KMPRT17 multi-party PSI gives its leader the common items",
     "The KMPRT17 multi-party protocol gives its leader, whichever party that is, exactly the items all parties hold, once each, and the other parties nothing; few or many items, sets of any sizes including empty ones, and items given more than once. No party's messages repeat anything from run to run over the same items, and the tables sent leave no place unfilled. (A set that does not fit its hash tables, a rare event, stops the run with an error.)",
     ["inputs"], "every two to five sets and every leader", "the test runs eight fixed size combinations with party 0 as leader",
     ["experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.cc", "experiment/psi/kmprt17_mp_psi/kmprt17_opprf.cc", "experiment/psi/kmprt17_mp_psi/kmprt17_hashing.cc"],
     symbols=["KmprtParty::Run", "KmprtOpprfSend", "KmprtOpprfRecv"],
     note="TLC computes the share algebra for up to 5 parties; recorded runs of 2-5 parties are validated.")
prop("C37", "A key-value store hidden in a table gives back what was put in",
     "A key-value store (one table, or one with bins) solved for distinct keys gives back every key's value: whatever the number of items (also fewer than there is room for), their values, the order and number of keys asked for at once, the size of the bins, the number of threads solving and reading, the kind of dense columns, the width of values and column numbers, and weights from 3 on; adding the answers to what is there works too. With a random generator, a key outside of the set gets an answer that has nothing to do with the stored values and differs from store to store, and no entry of the table stays empty.",
     ["inputs"], "every set of keys and values and every choice of parameters", "the tests store three sizes of random keys without generator, in one shape",
     ["psi/algorithm/rr22/okvs/baxos.cc", "psi/algorithm/rr22/okvs/paxos.cc", "psi/algorithm/rr22/okvs/paxos_hash.cc", "psi/algorithm/rr22/okvs/dense_mtx.cc", "psi/algorithm/rr22/okvs/galois128.cc", "psi/algorithm/rr22/okvs/simple_index.cc"],
     symbols=["Baxos::Solve", "Baxos::Decode", "Paxos::Encode", "Paxos::EncodeU64", "Paxos::Decode"],
     note="TLC explores the triangulation of all small systems (3 items over 3 columns, 4 over 4) with all draws of the free columns, and shows that the tables reached are all tables that give the values back; some 200000 real stores per run are judged.")
prop("C32", "A Piano private look-up returns the entry asked for and looks the same for all",
     "After the client went through the chunks once, every look-up gives exactly the database entry asked for: any number of entries (also where the last chunk is filled up) and entry size, any number of threads, chunks fetched in any order, any sequence of up to the announced number of questions (repeated ones, many in one chunk), also when the reply to an earlier question never came. Every question names one entry of each chunk, and, when each is answered before the next, the questions of a session are uniformly random and independent of what is asked for, now and before.",
     ["inputs", "histories"], "every database, sequence of questions and lost reply", "the tests ask random questions to three databases and compare answers only",
     ["experiment/pir/piano/client.cc", "experiment/pir/piano/server.cc", "experiment/pir/piano/util.cc", "experiment/pir/piano/serialize.h"],
     symbols=["QueryServiceClient::GenerateIndexQuery", "QueryServiceClient::RecoverIndexReply", "QueryServiceClient::PreprocessDBChunk", "QueryServiceServer::GenerateIndexReply"],
     note="TLC explores the client's hint table (sums, refreshes) for all draws and counts, for every sequence of questions, that each sequence of messages arises from the same number of draws; recorded sessions are judged entry by entry and their messages by counts within seven standard deviations.")
prop("C33", "A two-server look-up (PPS) returns the right bit and shows neither server which",
     "A client that asked one server for the sums over its sets reads, with one question (one key) or many (several keys, each used one replaced), exactly the bit of the database at the place asked for, from the two servers' replies; it gives no value only when it hid the place or no set has it, and this happens as seldom as the sizes say, so that the repeated scheme is right. The punctured sets sent to a server have the promised size, never name the place asked for unless by hiding, and a question to the on-line server is equally likely whatever the place asked for.",
     ["inputs", "histories"], "every database, place, sequence of questions and draw of keys", "the tests ask one random question (or one random sequence) per size and compare the bit",
     ["experiment/pir/pps/client.cc", "experiment/pir/pps/server.cc", "experiment/pir/pps/ggm_pset.cc", "experiment/pir/pps/sender.cc", "experiment/pir/pps/receiver.cc"],
     symbols=["PpsPirClient::Setup", "PpsPirClient::Query", "PpsPirClient::Reconstruct", "PPS::Eval", "PPS::Punc"],
     note="TLC counts, for all draws over small databases, that every question arises from the same number of draws whatever the place, and explores the replacing of sets with symbolic contents; recorded questions, keys, replies and bits of real runs are validated, and their distribution by counts within seven standard deviations. The messages of a multi-key question to the two servers are judged one by one.")
prop("C34", "A SimplePIR look-up returns the entry asked for and hides the question in noise",
     "For every square database, modulus up to 2^57 and plaintext modulus whose noise fits, each look-up returns exactly the entry asked for, whichever entries there are, from any client set up with the hint, after unsent questions and after the database was replaced. A question is a fresh random multiple of the public matrix plus an error in every place, also the one asked for, drawn as the given width says and within its bounds, plus the step at the column asked for, all reduced by the modulus.",
     ["inputs", "histories"], "every parameters, database, place and draw of noise", "the tests ask one question with one modulus (2^32)",
     ["experiment/pir/simplepir/client.cc", "experiment/pir/simplepir/server.cc", "experiment/pir/simplepir/util.cc", "experiment/pir/simplepir/network_util.cc"],
     symbols=["SimplePirClient::Query", "SimplePirClient::Recover", "SimplePirServer::Answer", "SimplePirClient::SampleGaussian"],
     note="TLC enumerates moduli, rows, masks and errors of small sizes, and shows that the read value is right whenever the noise fits; about 25000 real look-ups and 3600 questions taken apart into secret and errors are validated.")

prop("C38", "A look-up paid by the row gives the rows asked for, for their true number only",
     "In the private look-up of keys with several rows each (DkPir), a client gets, after any preparation of the server's table, every row of each key it asks for, whole, with its multiplicity and under the right key, and nothing else, with the header asked for; without counting, keys that are not there are left out. With counting, the server releases the order in which it shuffled its answers only after it checked the number of rows the client names against the encrypted counts, accepts and writes down no number but the true one, and refuses when the client adds up some of the counts only, or twice, leaves the sum out, names another number (also beyond 32 bits), asks for a key that is not there, or when the secret key is missing, cut off or of another preparation; a refused session leaves no result. The questions are blinded, the answers shuffled evenly and anew each session, the key pair and the secret line are drawn anew at each preparation, and nothing temporary is left behind.",
     ["inputs", "histories"], "every table, set of keys, draw, order of messages and cheating client of the given kinds",
     "the tests look up one fixed table with an honest client",
     ["psi/algorithm/dkpir/entry.cc", "psi/algorithm/dkpir/sender.cc", "psi/algorithm/dkpir/receiver.cc", "psi/algorithm/dkpir/sender_cnt_db.cc", "psi/algorithm/dkpir/common.cc", "psi/algorithm/dkpir/oprf_receiver.cc", "psi/utils/csv_converter.cc", "psi/wrapper/apsi/utils/sender_db.cc"],
     symbols=["SenderOffline", "SenderOnline", "ReceiverOnline", "DkPirSender::CheckRowCount", "DkPirReceiver::ComputeRowCountCt", "ApsiCsvConverter"],
     note="TLC enumerates tables, questions, shuffles, weights with which a client adds up the counts and numbers it names; about 1700 real sessions per run, honest and not, are validated. The labelled look-up of APSI and the encryption of counts (SEAL, HEU) are ideal stand-ins. A client that replaces counts it was sent by those of cheaper keys cannot be told apart by the protocol and is out of scope, and so are fields with the separators 0x1E and 0x1F.")

prop("C42", "A keyword look-up finds what the prepared table holds, after any interruption",
     "In the private look-up of labels by key (APSI's command line, its C++ and its C interface), an asker is told exactly those of the keys it asked for that are in the table the holder prepared, each once with its own label, whatever characters are in it, under the right header, and nothing else; however the table was divided into buckets and groups, by however many processes, with or without preparing it beforehand, and with answers sent one by one or at once. A table with a key twice, without rows, with another header, or not there, is refused and never served, nor is a question that asks for a key twice; so is a folder prepared with other numbers or parameters. A preparation that was stopped at any of its writes, with all its processes, is finished by the next one and then answers the same; a stored table that lost its end is refused and not served as if what it lost had never been in it.",
     ["inputs", "crash points", "histories"], "every table, division, question, interface and moment at which preparing stops",
     "the tests look up one fixed file",
     ["psi/wrapper/apsi/cli/entry.cc", "psi/wrapper/apsi/cli/sender_dispatcher.cc", "psi/wrapper/apsi/api/sender.cc", "psi/wrapper/apsi/api/receiver.cc", "psi/wrapper/apsi/utils/group_db.cc", "psi/wrapper/apsi/utils/csv_reader.cc", "psi/wrapper/apsi/utils/sender_db.cc", "psi/wrapper/apsi/utils/common.cc"],
     symbols=["RunSender", "RunReceiver", "GenerateGroupBucketDB", "GroupDB::DivideGroup", "GroupDBItem::Generate", "GroupDBItem::LoadBucket", "ApsiCsvReader::GroupBucketize", "api::Sender::RunQuery", "api::Receiver::ProcessResult"],
     note="TLC explores every interleaving of dividing, storing by a process per group, failing of single processes and stopping of all; some 850 real preparations and look-ups per run are validated, 250 of the preparations killed with all their processes at a write, half of them with the write torn. The cryptography of APSI (SEAL) and the link are ideal stand-ins, the ZMQ channel is not run, and labels are not empty.")

prop("C39", "A Spiral look-up returns the row asked for, of the database served last",
     "For every number and length of rows, also rows longer than one plaintext, and every power-of-two plaintext modulus, both parties find the same layout and every database of up to 1024 plaintexts has one, whatever the parameters were adapted to before. A look-up of any row returns exactly that row of the database generated or loaded last, however the messages are sent; a row beyond the end, a server without a database to look up in, rows not of the length announced, and storing a database that can no longer be stored are refused. No two clients share a key, keys have the weight they should have, and of a question and the public keys the server sees only fresh, evenly spread values with noise of the stated width that the seed sent along does not reveal.",
     ["inputs", "histories"], "every database size and content, parameters, row asked for, life of the server and draw of keys and noise",
     "the tests look up one row in a few fixed shapes and measure time",
     ["psi/algorithm/spiral/params.cc", "psi/algorithm/spiral/spiral_client.cc", "psi/algorithm/spiral/spiral_server.cc", "psi/algorithm/spiral/poly_matrix_utils.cc", "psi/algorithm/spiral/util.cc", "psi/algorithm/pir_interface/pir_db.cc"],
     symbols=["Params::UpdateByDatabaseInfo", "SpiralClient::GenQueryInternal", "SpiralClient::DecodeResponse", "SpiralServer::ExpandQuery", "SpiralServer::FoldCiphertexts", "SpiralServer::Dump", "GenTernaryMatrix"],
     note="TLC runs every small database size, shape, question and server life round by round (unfolding, column, folding); real look-ups over many shapes, with and without AVX2, are validated against it, and the noise, keys and cipher texts of the real client are judged statistically. Client messages that are not well-formed are out of scope; a stored database is loaded with the default parameters only.")

prop("C40", "A task does what it is told, however it is started",
     "A task started through the execution API, with a configuration, or by the launcher's main (from a file, from text, or handed out by Kuscia) does what it is told: the protocol, the receiver and the left side (named by place on the link), who else gets the result, the kind of join, input, keys, output, form and order of the rows, recovery, and for the private look-up its files, sizes and switches, with the documented defaults for what is left out; parties that start the same task in different ways work together. Parties told different things about what they must do alike, or told something not allowed, fail and leave no result. The report is about the task that ran, progress is told up to its end, and every party of a Kuscia task finds the same order of parties, its own configuration and its own address.",
     ["inputs"], "every configuration, party and mixture of ways to start",
     "the tests run no launcher at all",
     ["psi/apps/psi_launcher/launch.cc", "psi/apps/psi_launcher/factory.cc", "psi/apps/psi_launcher/kuscia_adapter.cc", "psi/apps/psi_launcher/main.cc", "psi/utils/resource_manager.cc"],
     symbols=["api::PsiExecute", "api::UbPsiExecute", "ExecConfToV2Conf", "UbExecConfToUbconf", "ExecConfToBucketConf", "RunPsi", "RunPir", "FromKusciaConfig"],
     note="TLC explores all pairs of descriptions and tables of a small task: told by places, done by roles; some 1200 recorded tasks and 400 look-ups per run, started in mixed ways, are validated. The link the launcher opens, command-line parsing and the private look-up behind the configuration (APSI) are stand-ins.")

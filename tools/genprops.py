#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl. Source of truth for the property texts.
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,
        "state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
        "mechanism":[{"name":a,"where":b} for a,b in mech],
        "observe_at":list(observe),"hook_needed":None}})
H=["inputs","histories"]

p("C01","Coded symbols stay exact signed sums of the symbols mapped to them",
  "In the rateless IBLT codec, whenever a source symbol is put into or taken out of a coded symbol, by the encoder, by a fixed-size sketch or while a decoder peels, the coded symbol's XOR sum, signed count and checksum all change together by exactly that one symbol and its own hash, additions counting +1 and removals -1. The encoder and the sketch only add; the decoder removes the symbols it was given and those it recovered as remote-only, and adds those it recovered as local-only. Subtracting sketches combines sum, count and checksum position by position over the whole length, and sketches of different lengths are refused.",
  H,"every symbol set, every order of additions, encodings, subtractions and peeling steps",
  "the tests encode and decode a few random sets of one symbol type; an asymmetric update of one of the three fields on a path they rarely take only lowers the decoding probability",
  ["riblt/symbol.go","riblt/encoder.go","riblt/sketch.go","riblt/decoder.go"],
  [("coded symbol update","riblt/symbol.go: CodedSymbol.apply"),("sketch add and subtract","riblt/sketch.go: AddHashedSymbol, Subtract"),("peeling of arrivals and of recovered symbols","riblt/decoder.go: AddCodedSymbol, applyNewSymbol")],
  [("sum/count/checksum","XOR of the symbols, signed number of them, XOR of their hashes","riblt/symbol.go: CodedSymbol")],
  ["Encoder.ProduceNextCodedSymbol","Sketch","Decoder"])

p("C02","Every party maps a symbol to the same coded-symbol positions",
  "The positions of the coded symbols that contain a given source symbol depend only on the symbol's hash and start with position 0, and the encoder, the sketch and the decoder, for symbols given to it and symbols it recovered alike, all follow that one sequence, applying the symbol exactly once at each of its positions and at no other. Every coded symbol produced or received takes exactly one position, whether or not any symbol maps to it. A symbol recovered by peeling the coded symbols received so far continues its sequence, for later coded symbols, at the first position not yet received.",
  H,"every hash, every interleaving of additions, coded symbols and recoveries",
  "a skipped, repeated or shifted position for some hashes or after some histories makes only some reconciliations fail or need more coded symbols, which sampled round trips tolerate",
  ["riblt/random.go","riblt/encoder.go","riblt/sketch.go","riblt/decoder.go"],
  [("position generator","riblt/random.go: randomMapping.nextIndex"),("window application","riblt/encoder.go: codingWindow.applyWindow"),("sketch and peeling loops","riblt/sketch.go: AddHashedSymbol; riblt/decoder.go: applyNewSymbol")],
  [("lastIdx","position the symbol is mapped to next","riblt/random.go"),("nextIdx","position of the next coded symbol","riblt/encoder.go")])

p("C03","A symbol's position sequence is deterministic and strictly increasing",
  "For every 64-bit hash value, the sequence of coded-symbol positions it produces is a pure function of that value, strictly increases at every step and never becomes negative or wraps around as long as positions are below 2^31. So adding, encoding, sketching or decoding a symbol, whatever its hash (0 included), always terminates and never meets the same position twice.",
  ["inputs"],"every 64-bit symbol hash and every reachable generator state",
  "tests use a handful of hashes out of 2^64; the degenerate ones (0, or a generator output near 0 or near 2^64) are practically never sampled",
  ["riblt/random.go"],[("position generator","riblt/random.go: nextIndex")],
  [("prng","multiplicative generator state seeded with the hash","riblt/random.go")])

p("C04","The rateless decoder reports only verified symbols, once, on the right side",
  "The rateless decoder recovers a symbol only from a coded symbol whose remaining count is exactly +1 or -1 and whose remaining checksum equals the hash recomputed from the remaining sum. Count +1 makes it a remote symbol and count -1 a local one; the reported symbol carries that sum and that hash, is reported exactly once, and is peeled, with the opposite sign, from the coded symbols received so far. Nothing else ever adds to, removes from or reorders the reported lists (except a reset).",
  H,"every sequence of received coded symbols, corrupted or adversarial ones included",
  "tests only feed honest coded symbols of random sets, for which a missing check practically never matters",
  ["riblt/decoder.go"],[("pure-symbol check and recovery","riblt/decoder.go: TryDecode"),("peeling","riblt/decoder.go: applyNewSymbol")],
  [("local/remote","recovered symbols and their running mappings","riblt/decoder.go: Decoder")],["Decoder.Local","Decoder.Remote"])

p("C05","The rateless decoder signals completion exactly when nothing is unresolved",
  "Decoding is reported complete exactly when every received coded symbol has been resolved. A coded symbol counts as unresolved once when it arrives, unless it is empty (zero count and zero checksum) after peeling everything known, and stops counting once: when a symbol is recovered from it, or when it is examined and found empty.",
  H,"every sequence of received coded symbols and decoding attempts",
  "the tests look at the flag at the end of a few runs; a count that drifts in a rare case makes the protocol stop too early (data loss) or never",
  ["riblt/decoder.go"],[("pending counter","riblt/decoder.go: AddCodedSymbol, TryDecode, Decoded, Reset")],
  [("pending","number of unresolved coded symbols","riblt/decoder.go: Decoder")],["Decoder.Decoded"])

p("C06","No decodable coded symbol is left unexamined by the rateless decoder",
  "Whenever the remaining count of a received coded symbol lies in -1..+1 after it arrives (unless it is empty) or after a recovered symbol is peeled from it, it is queued for examination exactly once unless it already is queued. A decoding attempt examines every queued coded symbol, those queued while it runs included, before it returns, and unmarks each one only when its examination is over, so that none is lost and none is queued twice.",
  H,"every sequence of received coded symbols and every peeling order",
  "losing one queued coded symbol only delays decoding in the sampled runs, where further coded symbols make up for it",
  ["riblt/decoder.go"],[("dirty marking and queue","riblt/decoder.go: AddCodedSymbol, applyNewSymbol, TryDecode")],
  [("dirty","per coded symbol mark and queue of marked indices","riblt/decoder.go")])

p("C07","Reset returns encoders and decoders to their initial state",
  "After Reset, a rateless encoder or decoder produces, recovers and reports exactly what a newly created one would: no symbol, coded symbol, position, queue entry, count or result from before is ever visible again. After Reset, a windowed encoder (the lt, iblt and ldpc packages) behaves as one newly created with the same salt and randomness and the newly given degree distribution and window size: its window is empty and every earlier transaction is accepted again.",
  H,"every history before the reset",
  "the tests reset at most in one particular state; leftover state shows only in what happens after a reset in other states",
  ["riblt/encoder.go","riblt/decoder.go","lt/encoder.go","iblt/encoder.go","ldpc/encoder.go"],
  [("reset functions","riblt: codingWindow.reset, Encoder.Reset, Decoder.Reset; lt, iblt, ldpc: Encoder.Reset")])

p("C08","Codecs never alter the data of callers or of symbols already recovered",
  "The XOR of the rateless, lt, iblt and ldpc codecs, which may overwrite its receiver, is only ever applied in place to the sum of a coded symbol or codeword or to an empty value, never to a symbol or transaction given by the caller, kept in a window or store, or already reported. A symbol or transaction recovered by a decoder is a copy of the sum it was recovered from, and creating an lt or iblt transaction copies the data it is given, so that peeling or changing one never changes the other.",
  H,"every symbol type whose XOR modifies its receiver in place; every history",
  "the types used in the tests have value semantics or are not looked at again, so that aliasing is invisible",
  ["riblt/symbol.go","riblt/decoder.go","riblt/sketch.go","lt/transaction.go","lt/encoder.go","lt/decoder.go","iblt/transaction.go","iblt/encoder.go","iblt/decoder.go"],
  [("duplication through the empty value","riblt/decoder.go: TryDecode; lt/transaction.go, iblt/transaction.go: NewTransaction"),("accumulation","CodedSymbol.apply, Subtract, produceCodeword, AddCodeword, peelTransaction")])

p("C09","The mapping queue always serves the symbol with the smallest position",
  "The queue in which encoders and decoders keep the next position of each symbol is a binary min-heap at all times between operations: inserting a symbol and moving the first one to a later position both restore the heap order completely and lose or duplicate no entry. So no symbol due at the current position is passed over.",
  H,"every queue size and every sequence of insertions and advances",
  "a heap that is repaired only partially goes wrong only for particular sizes and orders of positions",
  ["riblt/encoder.go"],[("heap repair","riblt/encoder.go: mappingHeap.fixHead, fixTail"),("users","riblt/encoder.go: addHashedSymbolWithMapping, applyWindow")])

p("C10","The encoder window holds the latest distinct transactions, up to its size",
  "The window of an lt, iblt or ldpc encoder holds, in order of arrival and at most up to the configured size (of one or more), the transactions most recently accepted. A transaction whose salted hash is already in the window is refused and changes nothing; any other is accepted and appended, after which the oldest ones in excess are dropped and may be added again. The set used to recognise duplicates always consists of exactly the salted hashes of the transactions in the window.",
  H,"every sequence of additions, window sizes and resets",
  "the tests add a few transactions to a window; membership and window going out of step needs evictions, duplicates and resets in particular orders",
  ["lt/encoder.go","iblt/encoder.go","ldpc/encoder.go"],[("window maintenance","AddTransaction, Reset of the three encoders")],
  [("window/hashes","transactions in the window and the set of their salted hashes","lt, iblt, ldpc: Encoder")])

p("C11","A codeword is the XOR of the distinct window members it lists",
  "A codeword produced by an lt or iblt encoder lists min(requested degree, window size) members, picked at distinct places of the window such that every member not yet picked can be picked next, and its data is the XOR of exactly the listed transactions, each once and listed by its own salted hash. Producing a codeword leaves the content and the order of the window as they were. A codeword without members is never produced: it is a programming error reported by a panic.",
  H,"every window content, degree and random choice",
  "the tests check the degree and the sum for a few random draws; a window left permuted, or a duplicated pick in rare draws, is not observed",
  ["lt/encoder.go","iblt/encoder.go"],[("sampling by swapping and reverting","produceCodeword")])

p("C12","A received codeword is peeled by or linked to every member it lists",
  "When an lt, iblt or ldpc decoder receives a codeword, every member it lists that the decoder holds is XORed out of it exactly once, and for every other member the codeword and the pending record of that member are linked to each other, the record being created under that salted hash if there is none. A codeword left with at most one unknown member is decoded at once and what comes out is returned to the caller; one with more stays undecoded until its members arrive.",
  H,"every codeword and every decoder state",
  "the tests feed a few hand-made codewords; a link missing in one direction shows only in later peeling",
  ["lt/decoder.go","iblt/decoder.go","ldpc/decoder.go"],[("registration","AddCodeword")],
  [("members/blocking","links between waiting codewords and unknown transactions","PendingCodeword, pendingTransaction")])

p("C13","LT decoders report only transactions whose hash verifies, each once",
  "An lt, iblt or ldpc decoder produces a transaction only out of a codeword with exactly one unknown member, and only if the salted hash computed from the recovered transaction equals the one listed for that member; it then stores it, removes its pending record and reports it exactly once. On a mismatch nothing is reported or stored, the codeword is detached from that member, and the member's pending record is dropped exactly when no other codeword waits for it. Decoding never gives up with a panic in a state that can occur.",
  H,"every codeword, hash conflict and corruption included",
  "hash conflicts and corrupted codewords do not occur in the tests beyond single constructed cases",
  ["lt/decoder.go","iblt/decoder.go","ldpc/decoder.go"],[("verification and recovery","decodeCodewords, failToDecode")])

p("C14","Known transactions are peeled from all waiting codewords and unlock them",
  "When a transaction becomes known to an lt, iblt or ldpc decoder, given by the caller or decoded, it is removed from the unknown members of, and XORed exactly once out of, every codeword waiting for it, and every such codeword left with at most one unknown member is queued for decoding exactly once. All queued codewords are processed before the call returns, and the transactions they yield are returned; a codeword is marked decoded exactly when it has been processed. A transaction already held is not peeled again.",
  H,"every decoder state and order of arrivals",
  "chains of dependent codewords in the tests are short; a lost or repeated step changes only what longer histories decode",
  ["lt/decoder.go","iblt/decoder.go","ldpc/decoder.go"],[("peeling","AddTransaction, markDecoded, peelTransaction, decodeCodewords")])

p("C15","A decoder remembers exactly the latest transactions, up to its memory",
  "An lt, iblt or ldpc decoder keeps the most recently stored transactions, at most as many as its configured memory (of one or more), and forgets the oldest first. Every stored transaction is findable by its salted hash at once, and forgetting an old transaction leaves a different, newer one with the same salted hash in place.",
  H,"every sequence of stored transactions and memory size",
  "the tests store few transactions; eviction combined with a salted-hash conflict is not exercised beyond a constructed case",
  ["lt/decoder.go","iblt/decoder.go","ldpc/decoder.go"],[("memory","storeNewTransaction")],
  [("receivedTransactions/recentTransactions","lookup table and arrival order of the remembered transactions","Decoder")])

p("C16","Encoders and decoders always agree on a transaction's salted hash",
  "In the lt, iblt and ldpc packages, the salted hash of a transaction is the keyed hash, under the salt given at construction, of the transaction's complete hash and nothing else, truncated to 32 bits. Every encoder and decoder operation computes it in this way, from a freshly reset state, so that it never depends on earlier operations.",
  H,"every salt, transaction and history of earlier operations",
  "a hash computed from stale state or partial input is consistent within one test but differs between parties with different histories",
  ["lt/encoder.go","lt/decoder.go","iblt/encoder.go","iblt/decoder.go","ldpc/encoder.go","ldpc/decoder.go"],
  [("salted hash computation","AddTransaction, HasDecoded, decodeCodewords, constructors")])

p("C17","Recycled ldpc objects are never used after release and always reinitialised",
  "In the ldpc package, no object is read, written, linked or released again after it was released to a recycling pool within the same operation, and every object taken from a pool has each of its state fields reinitialised before that state is used. A received codeword is recycled only when it has been decoded and its user has freed it, in whichever order the two happen.",
  H,"every history of codewords received, decoded and freed",
  "recycling depends on the garbage collector and on history; the tests of the package do not even compile",
  ["ldpc/decoder.go","ldpc/encoder.go","ldpc/transaction.go"],[("pools","pendingTransactionPool, pendingCodewordPool, codewordBuilderPool, hasherPool")])

p("C18","ldpc transactions cover every byte in decoding, hashing and XOR",
  "Unmarshalling an ldpc transaction accepts exactly inputs of the transaction size: it copies every byte and sets the hash to the digest of exactly those bytes, and any other size gives an error and leaves the transaction unchanged. XOR of transaction data combines every byte of the argument into the same byte of the receiver, exactly once, and changes nothing else. Serialized returns exactly the bytes of the transaction.",
  ["inputs"],"every byte string and every pair of transaction data",
  "the package's tests do not compile; nothing exercises this code",
  ["ldpc/transaction.go"],[("unmarshal","UnmarshalBinary"),("XOR","TransactionData.XOR")])

p("C19","An ldpc codeword is the XOR of the distinct window members it lists",
  "A codeword produced by an ldpc encoder lists min(requested degree, window size) members picked at distinct places of the window, every place of which can be picked at any degree of at least one, and its data is the XOR of exactly the listed transactions, each once and listed by its own salted hash. Producing a codeword does not change the window, and a requested degree of zero or an empty window gives an empty codeword.",
  H,"every window content, degree and random choice",
  "the package's tests do not compile; random sampling hides a duplicated or missing pick",
  ["ldpc/encoder.go"],[("reservoir sampling","produceCodeword")])

p("C20","The event simulator delivers in time order, ties in scheduling order",
  "The discrete-event simulator delivers queued messages in order of their arrival time, and messages with the same arrival time in the order in which they were scheduled. Queueing and unqueueing keep every message intact: none is lost, duplicated or altered.",
  ["schedules","histories"],"every set of queued messages, any delays and ties",
  "the des package has no test; the simulations built on it are not checked for order",
  ["des/simulator.go"],[("priority queue","priorityQueue Len, Less, Swap, Push, Pop"),("sequence numbers","ScheduleMessage")])

p("C21","Each scheduled message is delivered exactly once, to whom and when it was due",
  "A message scheduled in the simulator is delivered exactly once, at the time it was scheduled plus its delay, with its payload and its sender, to its addressee, or to the sender itself if none is named, and all messages its handler returns are scheduled in turn, in order, from the module that handled it. The clock shows the time of the message being delivered and never goes back. Run returns when nothing is queued, RunUntil when nothing is queued or the clock has passed the given time, and the counts of queued and delivered events are exact.",
  ["schedules","histories"],"every sequence of scheduled messages",
  "the des package has no test",
  ["des/simulator.go"],[("delivery loop","ScheduleMessage, deliverNextMessage, RunUntil, Run"),("counters","EventsQueued, EventsDelivered, Drained, Time")])

p("C30","Simulation results depend only on the configuration and the seed",
  "Two runs of the block simulator (simulator) or the shard simulator (newsim) with the same arguments deliver the same messages in the same order and print the same results. In the simulators, the event queue and the codecs they use, nothing that reaches simulated state, messages or results depends on map iteration order, wall-clock time, global or unseeded randomness, concurrency or memory addresses.",
  ["schedules","configurations"],"every configuration, and every map order, clock and scheduling the runtime may choose",
  "two runs differ only through choices of the runtime that a test neither controls nor observes",
  ["simulator/module.go","simulator/node.go","newsim/module.go","newsim/coding.go","des/simulator.go","riblt/encoder.go","lt/encoder.go"],
  [("ordered peers and seeded generators","newsim/module.go: server.peers; simulator/module.go: newServers")])

p("C31","The block simulator's sender and receiver keep exact flow control",
  "In the block simulator the sender emits codewords only while fewer than its window are in flight, each emitted codeword counting one in flight and each acknowledgement releasing exactly one, whatever else the acknowledgement says. It goes on emitting until the window is full or no block may be started. The receiver answers every codeword with exactly one acknowledgement, and acknowledges the block exactly when it has not yet done so, more codewords of the block than the detection threshold have arrived and at most the configured share of them is undecoded. A new block starts only after the previous one was acknowledged, when starting is allowed and enough transactions are buffered; it takes all buffered transactions, each of which enters exactly one block, and marks its first codeword.",
  ["schedules","histories"],"every interleaving of transactions, codewords and acknowledgements",
  "the simulator has no tests",
  ["simulator/node.go"],[("sender","onAck, onTransaction, tryFillSendWindow, tryProduceCodeword"),("receiver","onCodeword")])

p("C32","The shard protocol starts, fills, acknowledges and ends blocks consistently",
  "In the shard simulator a sender starts a new block only when the previous one has been acknowledged; it then resets its encoder, moves exactly the buffered transactions of the shard into it, takes the next shard of its schedule and marks the first coded symbol of the block with the shard's bounds. A receiver that gets the first coded symbol of a block moves exactly its own buffered transactions of that shard into its decoder, acknowledges every coded symbol of a block it has not finished exactly once, and ignores the others. When decoding completes it acknowledges the block together with all transactions only it has, hands up all those only the sender has, and resets the decoder. The sender hands up the transactions of an acknowledgement; each coded symbol it queues counts one in flight, each acknowledgement of the block being sent releases one, and except for the burst that follows the first symbol of a block one is queued only while fewer than the window are in flight.",
  ["schedules","histories"],"every interleaving of transactions, coded symbols and acknowledgements",
  "the simulator has no tests",
  ["newsim/coding.go"],[("sender","onAck, onTransaction, tryFillSendWindow, tryProduceCodeword"),("receiver","onCodeword, onTransaction")])

p("C33","Sender and receiver agree on shards, and shards partition the hash space",
  "For every number of shards, the shards of the shard simulator are consecutive, disjoint ranges that together cover all hash values, and every schedule visits each of them. Sender and receiver decide whether a transaction belongs to a shard by the same test, hash times a randomizer both ends share, lying in the circular range from the start (included) to the end (excluded) carried by the block.",
  ["inputs","configurations"],"every hash, randomizer, shard number and shard count",
  "the simulator has no tests; a boundary error concerns single hash values or the wrapping shard only",
  ["newsim/coding.go"],[("shard bounds and membership","tryProduceCodeword, onCodeword"),("shared randomizer","connectCodingServers")])

p("C34","Servers accept each transaction once and relay it to all other peers",
  "A server of the shard simulator takes a transaction as new exactly when it has not seen it before: it then records it, counts it as received, and hands it on to every peer except the one it came from (to every peer if it created it). A transaction seen before is counted as a duplicate and nothing else. The latency of a transaction is sampled once, when it is first seen, and every received one but those the server created itself counts as decoded.",
  ["schedules","histories"],"every topology and message order",
  "the simulator has no tests",
  ["newsim/module.go"],[("message handling","server.HandleMessage, forwardTransaction")],
  [("received","transactions seen","newsim/module.go: server")])

p("C35","Every queued protocol message leaves once, to its peer, with the link's delay",
  "In both simulators every message that a protocol handler queues is handed to the event simulator exactly once, in the order in which it was queued, addressed to the peer of that handler with the delay of that link, at the end of the event in which it was queued, and the queue is then empty. The messages a server makes itself during an event (its next arrival, the messages it floods) are handed over as well. This holds for all peers and for both directions (sending and receiving side) of every link.",
  ["schedules","histories"],"every topology, algorithm and event",
  "the simulators have no tests",
  ["newsim/coding.go","newsim/pull.go","newsim/module.go","simulator/module.go"],[("collection","collectOutgoingMessages")])

p("C36","The pull protocol requests what it lacks and serves what it is asked for",
  "In the pull protocol of the shard simulator, a transaction handed to a link is remembered and announced to the peer; an announcement is answered by a request for the announced hash exactly when that hash is not known on that link, a request by the transaction with the requested hash, and a response is remembered and handed up. Nothing else is sent.",
  ["schedules","histories"],"every message order",
  "the simulator has no tests",
  ["newsim/pull.go"],[("pull handler","forwardTransaction, handleMessage")])

p("C37","A topology file yields exactly its links",
  "Loading a topology file gives, for every line a,b,d, one link between nodes a and b with a delay of d milliseconds, in the order of the file, and a node count of one more than the largest node number on any link. The node count is at least one. An unreadable file, or a line that does not begin with three comma-separated integers, stops the program instead of being skipped.",
  ["inputs"],"every topology file",
  "the simulators have no tests",
  ["newsim/topology.go","simulator/topology.go"],[("loader","loadTopology")])

p("C38","Warm-up samples never enter the simulators' statistics",
  "In both simulators a latency or overlap sample is recorded exactly when a recorder is installed and the time of the sample is not before the end of the warm-up; it is recorded once, and a latency is the time of receipt minus the creation time carried by the transaction. Resetting the metrics zeroes every counter.",
  H,"every sample time and warm-up",
  "the simulators have no tests",
  ["newsim/types.go","simulator/transaction.go"],[("recording","recordRaw, recordTxLatency")])

p("C39","The forwarding rate limiter neither loses, reorders nor crowds transactions",
  "When the block simulator schedules transactions for forwarding, each of them gets exactly one slot, in order; a slot is never earlier than the current time nor less than the configured interval after the slot handed out before it, and the last slot handed out is remembered for the next call. Every transaction a server generates or decodes is scheduled exactly once, and when its slot comes it is handed to the sender of every peer.",
  ["schedules","inputs"],"every sequence of batches and times",
  "the simulator has no tests",
  ["simulator/module.go"],[("rate limiter","scheduleForwardingTransactions")])

p("C46","Simulated workload and network are exactly those configured",
  "In both simulators every transaction generated gets an index no transaction before it had and carries the time of its creation; its hash depends on every byte of the index and XOR combines index and time. As many servers are started as the topology has, each with its own random generator seeded by its number, and every link of the topology is made once, between its two ends, with its delay and for the algorithm chosen. Each server starts with one arrival and every arrival schedules exactly one next arrival of the same server, with the configured number of transactions, after an exponential delay drawn from the server's generator with the configured rate. In the block simulator with a period, each server has exactly one pending period event, at which the sender of every peer may start a block; otherwise transactions and acknowledgements may start blocks exactly if there is no period.",
  ["inputs","configurations","histories"],"every topology, set of flags and sequence of events",
  "there is no test of either simulator; a repeated index, a link with the wrong delay or a second pending arrival only shifts the reported rates",
  ["simulator/main.go","simulator/module.go","simulator/transaction.go","newsim/main.go","newsim/module.go","newsim/types.go"],[("set-up","main of both simulators"),("arrivals","server.HandleMessage, main of both simulators"),("transaction generator","transactionGenerator.generate")])

p("C47","Simulator counters and reports count every event of every server once",
  "In the block simulator every codeword a server receives raises its count of received codewords by one and its count of decoded transactions by the number of transactions the decoder returned; each of these is recorded as received and has its latency sampled once, and no other message changes a counter. Whenever a server starts a block, the share of it that the receiving peer has already decoded is sampled once. In the shard simulator every message that arrives at a server adds its size once to the bytes received, and the size grows by the transaction size for each transaction or coded symbol carried. In both, the simulation is advanced in steps to its duration, the counters of all servers are reset exactly once, in the first round behind the warm-up, every server has recorders of its own, and every figure reported is the announced moment of a sample with exactly one value per server, which is the metric the label names; rates are taken over the time since the reset.",
  ["inputs","configurations","histories"],"every topology, set of flags and sequence of events",
  "there is no test of either simulator; an event counted twice or not at all, or a server left out, only shifts the reported figures",
  ["simulator/main.go","simulator/module.go","simulator/transaction.go","newsim/main.go","newsim/module.go","newsim/messages.go","newsim/types.go"],[("counting","server.HandleMessage of both simulators; size methods in newsim/messages.go"),("reports","main and collectMoments of both simulators")])

p("C48","The node runs with its parameters and offers the configured workload",
  "Every setting of the node takes effect where it belongs: the code distribution and the encoder use the configured size and parameters, the decoder the configured peeling window, codewords expire after the configured timeout, the rate control starts at the configured rate (the transaction rate if that is zero) but not below the minimum, rises by the configured increment for each reported loss and falls by the increment times the target loss for each codeword sent, not below the minimum. The node listens on the configured address for ever and sets up every connection it accepts exactly once; every address it was told to connect to is dialled until that works and the connection is then set up exactly once. If the transaction rate is positive, one generator makes one fresh transaction after each delay, every delay an independent exponential draw with that rate, and the transaction carries the time of its creation and otherwise only random bytes.",
  ["inputs","configurations","schedules"],"every command line, every order of connections and failures to connect",
  "there is no test of the node; a setting that is mixed up, ignored or applied elsewhere only changes how well the system does",
  ["node/main.go","node/controller.go"],[("settings","main, controller.handleConn, newPeer"),("connections","main's accepting and dialling goroutines"),("generator","main's generating goroutine, randomTransaction")])

p("C49","Delays and counts the node reports are of what they say, each counted once",
  "For every transaction the node decodes once its warm-up is over, and for nothing else, exactly one delay is recorded: the time from the stamp in that transaction to now, in milliseconds. The warm-up is over when the configured time has passed since the start, not before, and stays over. Every codeword received gives exactly one transmission delay in a record of that peer's own, from the stamp the sender put in when it made the codeword. Stamps are read at the place, in the byte order and in the unit in which they are written. The counts printed (transactions decoded, generated, codewords received, codewords dropped) start at zero and grow by one exactly when what they count happens; the quantiles and means printed are those their labels name, of the delays recorded since warm-up or in the last report interval of the peer, which is forgotten after each report and only then.",
  ["inputs","schedules","histories"],"every sequence of transactions, codewords and ticks",
  "there is no test of the node; a delay recorded twice, not at all or in the wrong unit only shifts the figures",
  ["node/main.go","node/controller.go","node/receiver.go","node/sender.go"],[("delays","controller.loop, getDelayUs, receiver.decode"),("stamps","randomTransaction, sender.loop"),("counts","controller.loop, receiver.decode, sender.loop, main")])

p("C40","Peers exchange complete keys, each used in its own direction",
  "When a connection is set up in the node, each side generates and sends its complete hash key and receives the complete key of the peer before any data flows, whatever way the transport splits the bytes. The encoder to a peer uses the node's own key and the decoder uses the key received from that peer. A connection whose key exchange fails never becomes a peer.",
  ["inputs","fault_sequences","schedules"],"every segmentation of the byte stream and every transport failure",
  "there is no test of the node; short reads do not happen on loopback connections",
  ["node/controller.go"],[("key exchange","controller.handleConn, newPeer")])

p("C41","Codec and controller state in the node is confined to one goroutine",
  "In the node, every encoder, decoder, pending codeword, rate state and the peer list is only accessed by the single goroutine that owns it once that goroutine runs, and other goroutines reach it only by channels. Transactions and codewords, which goroutines share by pointer, are never changed after they are made, and a structure handed to another goroutine is not filled again. Other shared state is never written concurrently.",
  ["schedules"],"every goroutine interleaving",
  "there is no test of the node; a data race needs an interleaving",
  ["node/controller.go","node/sender.go","node/receiver.go","node/main.go"],[("ownership by loops","sender.loop, sender.sendCodewords, receiver.receive, receiver.decode, controller.loop")])

p("C42","The node accounts for every lost codeword and keeps its rate above the floor",
  "In the node, a received codeword that times out undecoded counts as one loss; when a codeword arrives every timed-out codeword leaves the receive window and is freed exactly once, no other does, and the losses are passed on to the sending side, which reports the accumulated number in the next codeword that is actually queued and restarts from zero only then. Losses reported by the peer raise the codeword rate in proportion; each queued codeword lowers it by the fixed decrement, which is the increment times the target loss, and never below the minimum, at which or above it also starts. A codeword that cannot be queued is counted as dropped and changes neither.",
  ["schedules","histories"],"every interleaving of losses, ticks and full queues",
  "there is no test of the node",
  ["node/sender.go","node/receiver.go"],[("loss accounting","sender.loop, receiver.decode")])

p("C45","The node produces codewords at its current rate",
  "In the node, every tick of the sending timer adds the current codeword rate times the timer's interval to the credit, every codeword produced uses up exactly one, none is produced without a whole credit, and producing goes on until less than one is left. So over any time the number of codewords produced for a peer stays within one of what the rate allows, whatever the rate does meanwhile.",
  ["schedules","histories"],"every interleaving of ticks and rate changes",
  "there is no test of the node",
  ["node/sender.go"],[("pacing","sender.loop")])

p("C43","The node relays every transaction to all peers, expired ones for decoding only",
  "The node's controller passes every locally generated transaction and every decoded transaction whose codeword had not expired to both the sending and the receiving side of every peer, and every decoded transaction whose codeword had expired to the receiving sides only. Each decoded transaction a decoder returns is passed to the controller exactly once, and every transaction passed to a side is put into that side's encoder or decoder. Every codeword read from a connection is decoded once with exactly the fields the peer sent, every codeword taken from the sending queue is written once, and a failure to read or write ends the connection's work with an error.",
  ["schedules","histories"],"every order of local and decoded transactions and peers",
  "there is no test of the node",
  ["node/controller.go","node/receiver.go","node/sender.go"],[("relaying","controller.loop, notifyUnexpiredTransaction, notifyExpiredTransaction, receiver.receive, receiver.decode, receiver.deliver, sender.loop, sender.sendCodewords")])

p("C44","The node's goroutines never wait for each other in a cycle",
  "No set of the node's goroutines can block for ever because each of them waits to put something into a full channel that only the next one of them empties: among goroutines waiting for each other's channels one can always go on. A goroutine that empties a channel others wait on does not end while the node runs, and none waits for a channel while it holds a lock.",
  ["schedules"],"every load and interleaving",
  "there is no test of the node; the channels must fill up first",
  ["node/controller.go","node/receiver.go","node/sender.go"],[("channels","newPeer, controller.loop, receiver.decode, sender.loop")])

p("C50","Testbed machines change only on confirmation, and only those tagged",
  "In the testbed tool, every request that creates, starts, reboots, stops or deletes something at a cloud vendor is reached from the command line only if the user passed the flag that bypasses the question (off by default) or answered the question positively; any other answer, and a failure to read one, leaves everything alone. Machines are rebooted, stopped or deleted only if they came from a listing restricted to the non-empty tag given on the command line, and every machine that is created carries that tag under the same key, so that it can be found again.",
  ["inputs","configurations"],"every command line, answer and state of the account",
  "there is no test of the testbed, and running it needs cloud accounts",
  ["testbed/aws.go","testbed/cluster.go","testbed/vultr.go","testbed/main.go"],[("confirmation","testbed/cluster.go: dispatchCluster, getConfirmation"),("tag filters","testbed/vultr.go: StopServers, RestartServers; testbed/aws.go: AWSListServersAtRegion")])

p("C51","Locks in the testbed tool are released on every path",
  "Every lock taken in the testbed tool is released on every way out of the operation that took it, errors included, so that one failing request never blocks the others for ever. State shared by its parallel workers is only accessed under its lock or handed over by channels or by waiting for the workers; every worker of a group that is waited for reports its end on all ways out, and exactly as many are waited for as were started.",
  ["schedules","fault_sequences"],"every failure and interleaving",
  "there is no test of the testbed; failures of remote services are needed",
  ["testbed/aws.go","testbed/cluster.go","testbed/exp.go","testbed/sshutil.go","testbed/vultr.go"],[("locks and worker results","AWSGetImageID and the parallel operations")])

p("C52","The testbed tool drops no error that makes its result wrong",
  "In the testbed tool, when a cloud request, remote or local command, key, file or decoding operation fails, what it delivers is not used (reading it before its error is looked at included), and the failure is reported, returned or ends the program; it is never silently replaced by an empty, zero or partial result, and no write of the server list fails silently. Exempt are printing, closing, the answer to the confirmation question and ending processes that may not exist.",
  ["fault_sequences"],"every failure of every external operation",
  "there is no test of the testbed; failures of remote services are needed",
  ["testbed/aws.go","testbed/cluster.go","testbed/exp.go","testbed/sshutil.go","testbed/vultr.go"],[("error handling","all callers of external operations")])

p("C53","An experiment on the testbed wires the nodes as its setup file says",
  "The testbed tool's experiment command connects to every server of its list once, as its user, at its address and port and with its key, and everything it does for a server goes over that server's own connection. With -run it starts the node on every server once, after ending what still ran there, listening on one port common to all where peers can reach it, with the remaining arguments of the command line, and as peers exactly the addresses of the servers the topology has it connect to. With -ping it measures exactly those ways and prints half the mean round trip with the numbers of the pair measured; with -dl it fetches the log each node writes into a file of each server's own under the given prefix; with -install it puts the given file under the name that is run. Each is done if and only if its flag is given.",
  ["inputs","configurations"],"every server list, topology and command line",
  "there is no test of the testbed; running it needs remote servers",
  ["testbed/exp.go","testbed/sshutil.go"],[("experiment command","dispatchBwTest, runAll, killServer, copyBackFile, uploadFile, connectSSH")])

# not decided statically
N=H
p("N01","Rateless reconciliation needs few coded symbols",
  "Two sets whose symmetric difference has d symbols are reconciled, with overwhelming probability, after a number of coded symbols close to 1.35 d for large d.",
  ["inputs"],"every pair of sets","probabilistic statement about random sets",["riblt/random.go"],[("degree sequence","riblt/random.go: nextIndex")])
p("N02","Everything that differs is eventually recovered",
  "After enough coded symbols of two sets with distinct hashes, the rateless decoder recovers exactly the symmetric difference.",
  ["inputs","histories"],"every pair of sets","needs the termination of a random peeling process",["riblt/decoder.go"],[("peeling","riblt/decoder.go")])
p("N03","The node converges to its target codeword loss",
  "Under a steady load the rate controller of the node keeps the fraction of undecoded codewords near the configured target.",
  ["schedules","inputs"],"every load","steady state of a stochastic control loop",["node/sender.go"],[("rate controller","sender.loop")])
p("N04","Simulated latency and overhead are faithful",
  "The latency quantiles and the communication overhead printed by the simulators are those of the simulated protocol up to the stated sketch accuracy.",
  ["configurations"],"every configuration","numerical accuracy",["newsim/main.go","simulator/main.go"],[("statistics","collectMoments")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))

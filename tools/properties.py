#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/properties.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- block headers
p("B01", "The active header chain always obeys the consensus rules",
  "After any sequence of header imports, every header on the active chain links to its predecessor back to genesis and satisfies proof-of-work, the required difficulty (including retargeting and minimum-difficulty rules), median-time-past, the two-hour future limit and the checkpoints. The rules are evaluated against the ancestors of that header on its own branch, so a header that is valid on its branch is not refused because of what another branch contains. No import, however malformed or ordered, makes the block tree panic.",
  ["histories", "inputs", "configurations"],
  "all histories of header imports (any order, batching, forks, orphans, duplicates, invalid headers), all difficulty parameters and checkpoint sets",
  "The unit tests import a few hand-made or fixed real headers; the rules must hold on every branch of every adversarial header tree, in particular across re-organisations and retarget boundaries.",
  ["chain/src/block/cache.rs", "common/src/block/tree.rs", "common/src/block.rs"],
  [("header validation", "chain/src/block/cache.rs: BlockCache::validate, validate_branch, import_block"),
   ("median time past", "chain/src/block/cache.rs: BlockCache::median_time_past"),
   ("retargeting", "common/src/block/tree.rs: BlockReader::next_difficulty_target; chain/src/block/cache.rs: next_min_difficulty_target")],
  state="active chain of the block tree", observe="BlockReader::iter/tip after every import")
p("B02", "The valid chain with the most work is the active one",
  "After any history of imports, in any order and batching, the active chain is the one with the most accumulated proof-of-work among all valid chains that the accepted headers form; an equal-work rival never displaces the active chain on mainnet, and on the other networks ties resolve to the same chain whatever the arrival order. The active chain is never reorganised to fork off before the last checkpoint it has reached.",
  ["histories", "inputs"],
  "all sets of headers and all orders and batchings in which they arrive, including parents after children and equal-work rivals",
  "Existing tests compare a handful of scripted forks; order-independence is a statement over all permutations and shapes of header trees.",
  ["chain/src/block/cache.rs"],
  [("chain selection", "chain/src/block/cache.rs: BlockCache::import_block, chain_candidates, fork"),
   ("reorg", "chain/src/block/cache.rs: switch_to_fork, rollback, extend_chain"),
   ("checkpoint fork limit", "chain/src/block/cache.rs: last_checkpoint")],
  observe="BlockReader::tip/chain_work after every import")
p("B03", "Import results report exactly how the active chain changed",
  "The outcome returned for a batch of headers names the new tip, the blocks that left the active chain (tip first) and the blocks that joined it (lowest first), so that removing the former and appending the latter to the previous active chain yields the new one. No block is reported that did not actually change status between the start and the end of the batch, and an unchanged-tip outcome means the active chain did not change.",
  ["histories", "inputs"],
  "all batches of headers against all tree states, including batches that trigger several re-organisations",
  "A single batch can reorganise several times; tests only look at one reorg per batch.",
  ["chain/src/block/cache.rs", "common/src/block/tree.rs"],
  [("batch import", "chain/src/block/cache.rs: BlockTree::import_blocks"), ("single import", "chain/src/block/cache.rs: import_block, extend_tip")],
  observe="ImportResult compared with BlockReader::iter before and after")
p("B04", "Chain queries always agree with the active chain",
  "Lookups by hash and by height, iteration, ranges, tip, height, accumulated work, membership tests, stale-branch search, block locators and locator-based header lookup all describe one and the same active chain at every moment. Locators start at the requested height, go strictly backwards without passing the last checkpoint, and a header lookup returns consecutive active headers after the first known locator, bounded by the stop block and the requested maximum.",
  ["histories", "inputs"],
  "all tree states reachable by imports and reorganisations, all query arguments",
  "The redundant indexes must stay in step after every reorganisation, which example-based tests sample only a few times.",
  ["chain/src/block/cache.rs", "common/src/block/tree.rs", "common/src/block.rs", "common/src/block/iter.rs"],
  [("queries", "chain/src/block/cache.rs: impl BlockReader for BlockCache"), ("locators", "common/src/block.rs: locators_indexes"), ("iterator", "common/src/block/iter.rs")])
# ---------------------------------------------------------------- storage
p("S01", "Header stores behave as an append-and-rollback list",
  "For any sequence of appends, rollbacks, reads, iterations and re-openings, the file-backed header stores return exactly the headers a simple list would: reads by height, lengths, heights and iteration agree, reads past the end fail, and a rollback forgets exactly the later headers. The file-backed and the in-memory store are indistinguishable through this interface.",
  ["histories", "inputs"],
  "all operation sequences on both record types, including batch sizes around the read-ahead size",
  "Tests use one or two sequences with 32 records; interactions of shared file offsets, batching and rollback need arbitrary sequences.",
  ["chain/src/block/store/io.rs", "chain/src/block/store/memory.rs", "common/src/block/store.rs", "chain/src/filter/cache.rs"],
  [("file store", "chain/src/block/store/io.rs: File, FileReader, Iter, put, get"), ("memory store", "chain/src/block/store/memory.rs")])
p("S02", "Persisted headers survive restarts and crashes",
  "At any moment the header file holds exactly the active chain, so a restart reproduces the same chain, work and filter headers. After a crash that leaves only a prefix of the bytes being written, checking reports the damage, healing keeps every completely written header and nothing else, and the node loads a valid chain that re-syncs to the same tip.",
  ["crash_points", "histories"],
  "all crash points (byte-level cuts of the write stream, including between truncation and rewrite of a reorganisation) of all import histories",
  "Tests corrupt one file in one way; a crash can happen at every byte of every write.",
  ["chain/src/block/store/io.rs", "chain/src/block/cache.rs", "chain/src/filter/cache.rs", "client/src/client.rs"],
  [("write-through", "chain/src/block/cache.rs: switch_to_fork, rollback, extend_tip"), ("recovery", "chain/src/block/store/io.rs: check, heal; chain/src/block/cache.rs: load_with; chain/src/filter/cache.rs: load_with, verify_with"), ("startup", "client/src/client.rs: Client::load")],
  observe="bytes of the header files after every import; chain loaded from each cut")
# ---------------------------------------------------------------- filters
p("F01", "Filter headers always form one chain along the active blocks",
  "The stored filter-header chain is always hash-linked from the genesis filter, is never longer than the active block chain, and each entry belongs to the block of the active chain at its height; after a reorganisation the entries of the removed blocks are gone and are fetched again for the new blocks. Filter headers are only accepted as an answer to a request, when they attach to the current filter tip, and a rejected message changes nothing. Filter headers and filters are requested only from peers that offer them.",
  ["histories", "inputs", "fault_sequences"],
  "all interleavings of honest and hostile filter-header messages with header sync and reorganisations",
  "Reorganisations racing with requests in flight are schedules no unit test enumerates.",
  ["p2p/src/fsm/cbfmgr.rs", "chain/src/filter/cache.rs", "common/src/block/filter.rs"],
  [("filter header import", "p2p/src/fsm/cbfmgr.rs: received_cfheaders, rollback, sync"), ("storage", "chain/src/filter/cache.rs: import_headers, rollback, verify_with")],
  observe="Filters interface and filter-header events after every step")
p("F02", "Only authentic block filters are ever used",
  "A block filter is reported or used for scanning only if its hash matches the filter header stored for that block of the active chain; any other filter, for an unknown block, a stale block or with altered content, has no effect on the scan, and a peer that sends a filter contradicting the filter-header chain is disconnected. Filters that were received are reported with the height and hash of the block they belong to.",
  ["inputs", "histories"],
  "all filter messages a peer may send at any time",
  "The verification must hold for each of the unboundedly many forged filters and moments, not for one sample.",
  ["p2p/src/fsm/cbfmgr.rs", "p2p/src/fsm/filter_cache.rs"],
  [("filter receipt", "p2p/src/fsm/cbfmgr.rs: received_cfilter"), ("filter cache", "p2p/src/fsm/filter_cache.rs")])
p("F03", "A rescan examines every block in range and misses no match",
  "Once filters are available, a rescan processes every height of the requested range exactly once and in ascending order, per version of the chain: after a reorganisation the replaced heights are processed again for the new blocks. Every block of the active chain in range whose filter matches a watched script is fetched and delivered, whatever the order in which peers answer, drop, withhold or duplicate messages (as long as one connected peer gives out what is needed), and with or without the filter cache. Progress is reported with every delivery, and a height reported as scanned lies above no match that is still to be delivered.",
  ["histories", "schedules", "fault_sequences"],
  "all ranges, watch lists, peer schedules, message losses and reorganisations during the scan",
  "Missing a payment depends on particular interleavings of filter arrival, reorganisation and rescan boundaries.",
  ["p2p/src/fsm/cbfmgr.rs", "p2p/src/fsm/cbfmgr/rescan.rs", "p2p/src/fsm/filter_cache.rs", "p2p/src/fsm/invmgr.rs"],
  [("rescan", "p2p/src/fsm/cbfmgr/rescan.rs: Rescan::process, received, requests, rollback"), ("orchestration", "p2p/src/fsm/cbfmgr.rs: rescan, sync, get_cfilters, timer_expired")],
  observe="FilterProcessed, Scanned, BlockMatched and RescanStarted/Stopped events")
p("F04", "The in-memory filter cache stays bounded, exact and consistent",
  "The filter cache never holds more bytes than its capacity, its reported size always equals the sum of what it holds, and it evicts the lowest heights first and only when needed. A lookup returns the last filter stored for that height since the last rollback, or nothing; a rollback forgets exactly the heights above it.",
  ["histories", "inputs"],
  "all sequences of insertions, replacements, lookups and rollbacks, all capacities and entry sizes",
  "Accounting drifts only along particular sequences of overwrite, eviction and rollback.",
  ["p2p/src/fsm/filter_cache.rs"],
  [("cache", "p2p/src/fsm/filter_cache.rs: FilterCache::push, get, rollback")])
# ---------------------------------------------------------------- p2p
p("P01", "No peer or caller input can crash the protocol",
  "The protocol engine never panics, aborts or loops forever, whatever well-formed messages peers send in whatever order and state, however connections come and go and whatever commands a user issues. After arbitrary hostile traffic it still answers pings and completes handshakes with new honest peers.",
  ["inputs", "schedules", "histories"],
  "all sequences of network messages, connection events, timer expirations and commands",
  "Crash-freedom is a universally quantified safety property over adversarial inputs.",
  ["p2p/src/fsm.rs", "p2p/src/fsm/syncmgr.rs", "p2p/src/fsm/cbfmgr.rs", "p2p/src/fsm/invmgr.rs", "p2p/src/fsm/peermgr.rs", "p2p/src/fsm/addrmgr.rs", "p2p/src/fsm/pingmgr.rs"],
  [("dispatch", "p2p/src/fsm.rs: StateMachine::message_received, command, timer_expired")])
p("P02", "Peers are used only after a complete, acceptable handshake",
  "A peer is reported as negotiated only after a connection was established and both its version and its verack arrived, in that order, and the version was acceptable (protocol version, required services for outbound peers, not ourselves); until then it is asked nothing beyond the handshake and its other messages have no effect. Peers that are unacceptable, from another network or do not finish the handshake in time are disconnected; on success the outbound side sends version first and both sides acknowledge.",
  ["schedules", "inputs", "histories"],
  "all orders and repetitions of handshake and other messages, on inbound and outbound links, and all timings",
  "Handshake bugs hide in unusual message orders and in reconnections, which tests do not enumerate.",
  ["p2p/src/fsm/peermgr.rs", "p2p/src/fsm.rs"],
  [("handshake", "p2p/src/fsm/peermgr.rs: handle_version, handle_verack, peer_connected"), ("handshake timeout", "p2p/src/fsm/peermgr.rs: timer_expired"), ("dispatch", "p2p/src/fsm.rs: message_received")],
  observe="outputs (Connect, Write, Disconnect, Event) of the state machine")
p("P03", "Connection events and limits are respected at all times",
  "For every peer the reported events follow the lifecycle connecting, connected, negotiated, disconnected, or connecting then failed, with exactly one disconnection or failure per connection, and commands and announcements only go to peers that are currently connected. The node keeps trying to reach its target number of outbound peers, never holds more inbound peers than the configured maximum nor dials an address it is already connected to or connecting to, and reconnects to configured persistent peers with back-off.",
  ["histories", "schedules", "fault_sequences"],
  "all interleavings of dial results, inbound connections, disconnections, timeouts and commands",
  "Connection management is a function of long event histories with failures at every point.",
  ["p2p/src/fsm/peermgr.rs", "p2p/src/fsm.rs", "p2p/src/fsm/output.rs"],
  [("connection management", "p2p/src/fsm/peermgr.rs: connect, peer_connected, peer_disconnected, maintain_connections, maintain_persistent, disconnect"), ("limits", "p2p/src/fsm/peermgr.rs: Config, inbound/outbound limits")])
p("P04", "Unresponsive peers are detected and pings are answered",
  "Every ping from a negotiated peer is answered with one pong carrying the same nonce. An idle negotiated peer is pinged periodically, a peer that does not answer a ping within the timeout is disconnected, and a peer that answers every ping with the right nonce in time is never disconnected for it, whatever else it sends.",
  ["schedules", "inputs"],
  "all timings of ticks, pings, pongs (right, wrong, late, duplicated) and other traffic in virtual time",
  "Depends on arbitrary interleavings in time.",
  ["p2p/src/fsm/pingmgr.rs", "p2p/src/fsm.rs"],
  [("ping", "p2p/src/fsm/pingmgr.rs: received_wake, received_ping, received_pong")])
p("P05", "Header sync converges to the best chain offered",
  "Connected to peers of which at least one honest outbound peer keeps responding and announcing its blocks, the node's active chain reaches the best valid chain that this peer serves, for any chain lengths and fork points, even if other peers are slow, silent, serve shorter or stale chains or disconnect. Headers requests carry locators of the current active chain, are never duplicated to a peer while one is outstanding, unsolicited announcements of new blocks are followed up, and once the tip is stale (no new block for hours) the outbound peers not asked yet are asked for better headers, even if they didn't claim or announce any.",
  ["schedules", "fault_sequences", "configurations"],
  "all chain shapes, peer behaviours, latencies, losses and disconnections in which an honest responsive peer remains",
  "Convergence needs whole-system executions under many fault schedules.",
  ["p2p/src/fsm/syncmgr.rs", "p2p/src/fsm.rs"],
  [("sync", "p2p/src/fsm/syncmgr.rs: sync, received_headers, received_inv, timer_expired, request, sample_peers")],
  observe="final tip versus the peers' best chain; getheaders requests")
p("P06", "Block events replay to the node's active chain",
  "At every moment, folding the reported block-connected and block-disconnected events over the chain known at start-up gives exactly the node's active chain: disconnections come tip first, connections lowest first, none is missing, duplicated or out of order. Each headers-imported event names the tip that results, and subsystems (filter headers, mempool, rescan) follow the same sequence.",
  ["histories", "inputs"],
  "all histories of header messages, imports and reorganisations, including messages that are only partly valid",
  "A consumer's view must be right after every possible history, including partly invalid messages.",
  ["p2p/src/fsm/syncmgr.rs", "p2p/src/fsm.rs", "p2p/src/fsm/event.rs"],
  [("chain events", "p2p/src/fsm/syncmgr.rs: import_blocks"), ("commands", "p2p/src/fsm.rs: Command::ImportHeaders")],
  observe="event stream versus tree queries")
p("P07", "Data served to peers is correct",
  "Answers to header requests contain consecutive headers of the active chain starting after the best common block, at most 2000 and not past the stop block; answers to filter-header requests contain the stored filter hashes and previous header for exactly the requested range, at most 2000 entries; address answers contain only addresses from the address book, within the protocol limit. Requests that cannot be satisfied get no answer rather than a wrong one.",
  ["inputs", "histories"],
  "all request messages against all chain states",
  "The mapping from request to answer must hold for every locator list, range and chain state.",
  ["p2p/src/fsm/syncmgr.rs", "p2p/src/fsm/cbfmgr.rs", "p2p/src/fsm/addrmgr.rs"],
  [("getheaders", "p2p/src/fsm/syncmgr.rs: received_getheaders"), ("getcfheaders", "p2p/src/fsm/cbfmgr.rs: received_getcfheaders"), ("getaddr", "p2p/src/fsm/addrmgr.rs: received_getaddr")])
p("P08", "Protocol violations are penalised, honest peers are not",
  "A peer that sends headers without sufficient proof-of-work or headers that break the rules where they extend the active chain, oversized header messages, invalid filter headers or filters, or undecodable data is reported as misbehaving or is disconnected, and none of its invalid data enters the active chain or the filter-header chain. A peer that follows the protocol, including answering late requests, announcing stale blocks or sending unsolicited but valid data, is not disconnected for misbehaviour, and a peer is only disconnected for not answering once it had reasonable time to answer.",
  ["inputs", "schedules"],
  "all kinds of invalid data at all moments, mixed with honest traffic",
  "Both directions (no impunity, no false accusation) quantify over all messages and moments.",
  ["p2p/src/fsm/syncmgr.rs", "p2p/src/fsm/cbfmgr.rs", "p2p/src/fsm/peermgr.rs", "client/src/service.rs"],
  [("misbehaviour", "p2p/src/fsm/syncmgr.rs: record_misbehavior; p2p/src/fsm/cbfmgr.rs: PeerMisbehaved; p2p/src/fsm/peermgr.rs: received_event"), ("decode errors", "client/src/service.rs: message_received")])
# ---------------------------------------------------------------- inventory
p("I01", "Submitted transactions are announced and served until confirmed",
  "A transaction submitted to the node is promptly announced to every connected relaying peer and to relaying peers that connect later, is served to any peer that asks for it, and is re-announced periodically to peers that did not fetch it, until it is seen in a block of the active chain. A peer's first fetch of it is reported as its acknowledgment, and a peer that keeps fetching what it is announced is never given up on. Once confirmed it is no longer announced, and peers are not asked about or sent transactions that were never submitted.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of submissions, peer connections, requests, timeouts, blocks and reorganisations",
  "Loss of a broadcast depends on when peers come and go relative to submission and confirmation.",
  ["p2p/src/fsm/invmgr.rs", "p2p/src/fsm.rs"],
  [("mempool", "p2p/src/fsm/invmgr.rs: announce, received_getdata, timer_expired, peer_negotiated")])
p("I02", "Transaction status follows the active chain",
  "A submitted transaction is reported confirmed exactly when a block of the active chain containing it is processed, with that block's height and hash; if that block leaves the active chain, less than a dozen blocks deep, the transaction is reported reverted and returns to the set being broadcast, and it can be confirmed again. A transaction that never appeared in a processed block is never reported confirmed.",
  ["histories"],
  "all histories of submissions, block deliveries and reorganisations",
  "Confirm/revert/confirm cycles over arbitrary reorganisations are not enumerable by unit tests.",
  ["p2p/src/fsm/invmgr.rs", "p2p/src/fsm/event.rs"],
  [("confirmation", "p2p/src/fsm/invmgr.rs: received_block, block_reverted, timer_expired"), ("status", "p2p/src/fsm/event.rs: TxStatus")])
p("I03", "Requested blocks are delivered once, in order and unaltered",
  "Every requested block of the active chain is promptly asked of some peer that offers blocks, with time-outs leading to retries with other peers, and is then delivered exactly once per request, in ascending height order. Only blocks that were requested, are part of the active chain and whose transactions match the header's commitment are delivered.",
  ["schedules", "fault_sequences", "inputs"],
  "all orders of requests and answers, losses, duplicates, unsolicited and forged blocks, reorganisations",
  "Out-of-order and partially failing deliveries have unboundedly many schedules.",
  ["p2p/src/fsm/invmgr.rs"],
  [("block download", "p2p/src/fsm/invmgr.rs: get_block, received_block, schedule_tick, timer_expired")])
p("I04", "Fee estimates summarise exactly the blocks they cover",
  "The fee estimate reported for a processed block equals the low, median and high fee rates of that block's fee-paying transactions whose inputs are known from the processed blocks, and is independent of what was processed and later rolled back (within the supported reorganisation depth of 12 blocks, for blocks processed in ascending height). It is absent when no transaction qualifies, and low is never above median nor median above high.",
  ["histories", "inputs"],
  "all sequences of blocks and rollbacks",
  "Depends on the undo information being exact for every reorganisation history.",
  ["p2p/src/fsm/fees.rs", "p2p/src/fsm/invmgr.rs"],
  [("fee estimator", "p2p/src/fsm/fees.rs: FeeEstimator::process, rollback, apply")])
# ---------------------------------------------------------------- addresses and time
p("A01", "Address sampling only yields usable, eligible addresses",
  "Addresses the node chooses for new connections come from the known address book and have a supported domain, and are not ones currently connected, banned after misbehaviour, tried before without success, or chosen only a minute or two ago; an address without the required (or preferred) services is chosen only when there's none with them left to try. Non-routable addresses, and those lacking the required services, too far in the future or never active, are not stored when heard from peers; eligible ones are, and an entry is never overwritten. No address group exceeds its size limit, an entry is only removed by a ban or to make room in its own group, and no single group can crowd out the others when an address is drawn.",
  ["histories", "inputs"],
  "all histories of address messages, connection results and samplings",
  "Eligibility depends on the full history of each address; tests cover only short scripted ones.",
  ["p2p/src/fsm/addrmgr.rs", "common/src/p2p/peer.rs"],
  [("sampling", "p2p/src/fsm/addrmgr.rs: sample, sample_with"), ("intake", "p2p/src/fsm/addrmgr.rs: received_addr, insert, populate_address_ranges"), ("bans", "p2p/src/fsm/addrmgr.rs: ban, peer_disconnected")])
p("A02", "The saved address book reloads to the same addresses",
  "Flushing the peer address book to disk and opening it again yields exactly the same addresses with the same services, source and timestamps, for IPv4 and IPv6 and any history of insertions, removals and flushes; inserting an address that is already known does not overwrite it. A file cut short is reported as an error (or, when empty, as an empty book), and no content, however malformed, makes loading crash.",
  ["inputs", "histories", "crash_points"],
  "all address books, all flush sequences and all corruptions or truncations of the file",
  "Round-tripping quantifies over all values and histories; one test uses 16 similar entries.",
  ["client/src/peer.rs", "common/src/p2p/peer.rs", "common/src/collections.rs"],
  [("peer cache", "client/src/peer.rs: Cache::open, from, flush"), ("encoding", "common/src/p2p/peer.rs: KnownAddress::to_json, from_json")])
p("D01", "Wire decoding is independent of how bytes are chunked",
  "A stream of encoded messages is decoded to exactly the same messages in the same order however it is split into reads, including one byte at a time and several messages in one read. Malformed or oversized data produces an error rather than a panic, a hang or unbounded buffering, and messages completed before the malformed data are still delivered.",
  ["inputs", "schedules"],
  "all message sequences, all chunkings and all corruptions",
  "Chunk boundaries fall anywhere; tests use a few fixed splits.",
  ["p2p/src/stream.rs", "client/src/service.rs"],
  [("decoder", "p2p/src/stream.rs: Decoder::input, decode_next"), ("service", "client/src/service.rs: message_received")])
p("T01", "Network-adjusted time follows the peers' median within limits",
  "Network time equals local time plus the median of the peers' time offsets, counting each peer once and at most 200 peers, adjusting only at five or more samples with a true median; offsets whose median exceeds 70 minutes are ignored. Whatever the samples, network time never differs from local time by more than 70 minutes.",
  ["inputs", "histories"],
  "all sequences of samples, sources and local times",
  "The rule must hold for every sample sequence, including ties, extremes and repeated sources.",
  ["common/src/block/time.rs", "p2p/src/fsm/peermgr.rs"],
  [("adjusted time", "common/src/block/time.rs: AdjustedTime::record_offset, from")])
# ---------------------------------------------------------------- networking and client
p("N01", "Every subscriber sees every event once and in order",
  "Each subscriber to the event stream receives every event published after it subscribed exactly once and in publication order, whatever other subscribers do; subscribing, dropping a receiver or closing from other threads never loses, duplicates or reorders events for anyone else. Closing ends every open stream, after what was published before. Derived streams (blocks, filters) carry exactly the corresponding events.",
  ["schedules", "histories"],
  "all interleavings of publishing, subscribing, unsubscribing and closing across threads",
  "Requires concurrent schedules.",
  ["net/src/event.rs", "client/src/client.rs"],
  [("broadcast", "net/src/event.rs: Broadcast, Emitter::emit, Subscriber::subscribe"), ("client streams", "client/src/client.rs: Publisher, Handle::events, blocks, filters")])
p("N02", "The reactor delivers bytes and connection events faithfully",
  "All bytes a service writes to a connected peer arrive at the peer complete and in order, and all bytes a peer sends reach the service complete and in order, for any sizes and however slowly either side reads. The service sees an attempt, then either a connection or a failure, for each dial, one connection notice per accepted peer, and exactly one disconnection per connection, and nothing from a peer after its disconnection.",
  ["schedules", "fault_sequences", "inputs"],
  "all payload sizes, socket buffer states, peer resets, refusals and concurrent connections",
  "Partial writes, resets and refusals depend on kernel buffering and timing.",
  ["net/poll/src/reactor.rs", "net/poll/src/socket.rs"],
  [("reactor", "net/poll/src/reactor.rs: run, process, handle_readable, handle_writable, dial"), ("write buffering", "net/poll/src/socket.rs: push, flush")])
p("N03", "Requested timers fire, even under load",
  "Whenever a service asks to be woken after some duration, it is woken no earlier than about that time minus the coalescing threshold and not much later, however much network traffic there is meanwhile; the timeout queue wakes keys in time order, each once, and never keeps two timers closer than its threshold.",
  ["schedules", "inputs"],
  "all sets of timers and all traffic patterns",
  "Starvation shows only under sustained load; the queue must be right for every timer set.",
  ["net/poll/src/time.rs", "net/poll/src/reactor.rs"],
  [("timeouts", "net/poll/src/time.rs: TimeoutManager::register, next, wake"), ("reactor loop", "net/poll/src/reactor.rs: run")])
p("N04", "Client handles get answers, and shutdown always completes",
  "Every command sent through a client handle, from any thread, is executed exactly once and in the order sent by that thread, and its answer reflects the node's state; queries about the chain agree with the events seen. Shutdown ends the client's run loop promptly from any state, after which commands sent through handles report disconnection instead of blocking.",
  ["schedules", "histories"],
  "all interleavings of handle calls from several threads with network activity and shutdown",
  "Lost wake-ups and deadlocks need concurrent schedules.",
  ["client/src/client.rs", "client/src/handle.rs", "net/poll/src/reactor.rs"],
  [("handle", "client/src/client.rs: Handle methods, run, shutdown"), ("command wake-up", "net/poll/src/reactor.rs: Source::Waker handling")])
p("W01", "The wallet balance equals its unspent outputs",
  "After applying any sequence of blocks in chain order, the wallet's unspent outputs are exactly the outputs paid to watched addresses that no applied transaction spent, with their values and scripts, and the balance is their sum; applying the same blocks again, as a rescan does, changes nothing in the end. The database persists this across re-opening. A running wallet asks the client to watch all its addresses from its birth height on, with no end, and shows this balance and these outputs.",
  ["histories", "inputs"],
  "all sequences of transactions and blocks, including chains of spends within a block and repeated application",
  "Conservation over arbitrary transaction graphs is not testable with single examples.",
  ["wallet/src/wallet.rs", "wallet/src/wallet/db.rs", "wallet/src/wallet/db/types.rs"],
  [("wallet", "wallet/src/wallet.rs: Wallet::apply, run, handle_client_event"), ("database", "wallet/src/wallet/db.rs: add_utxo, remove_utxo, utxos, balance")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
import re
for x in P:
    assert len(x["title"]) <= 80, x["id"]
    assert len(re.findall(r"[.](?:\s|$)", x["statement"])) <= 3, (x["id"])
print(len(P), "properties")

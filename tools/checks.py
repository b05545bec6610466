HOOKS = {"guard": "cfg(nakamoto_verif)", "enable": "RUSTFLAGS --cfg nakamoto_verif, set by /verif/harness/.cargo/config.toml", "source_commits": ["a06c6e9b1728c2fdaaad5885542e97ed13776690", "68d44c1fa956e38400fda277d58bec42e33a65cb"]}
NA = {
}
_M = "runtime monitoring: "
CHECKS = {
 "B01": (_M + "generated import histories on the real BlockCache, active chain re-validated after every import by an independent consensus oracle", "exploration", "header trees up to 70 (quick) / 160 (thorough) headers, low difficulty, shortened retarget periods, invalid headers of 8 kinds"),
 "B02": (_M + "differential most-work oracle over permuted deliveries of the same header trees", "exploration", "3 delivery orders per tree; tie and checkpoint scenarios"),
 "B03": (_M + "online checker folding every ImportResult over the previous chain", "exploration", "arbitrary batches, including several reorganisations per batch"),
 "B04": (_M + "all queries compared with the reference chain after every import", "exploration", "random query arguments in every reached state"),
 "S01": (_M + "file and memory stores compared operation by operation with a list model", "exploration", "random put/rollback/get/iterate/heal/reopen sequences"),
 "S02": (_M + "crash images at every write boundary and real write failures (RLIMIT_FSIZE), reloaded and compared with the chain before and after", "fault_enumeration", "prefix-truncation crash model; re-ordered sectors are not modelled; whole clients are restarted from files of any two lengths and re-synced from a peer"),
 "F04": (_M + "filter cache compared with a reference map after every operation", "exploration", "capacities 0 to unlimited, replacements, evictions, rollbacks"),
 "T01": (_M + "network time compared with an independent median after every sample", "exploration", "up to 230 samples, extreme offsets and local times"),
 "D01": (_M + "decoder output compared, read by read, with the frames sent, over many chunkings", "exploration", "all message kinds; corrupt, short and oversized frames"),
 "I04": (_M + "fee estimates compared with an independent UTXO model across rollbacks", "exploration", "up to 12 rolled-back blocks, sparse processing, unbalanced transactions"),
 "P07": (_M + "every answer sent to a peer compared with one computed from the true chain, filter headers and address book in the same turn", "exploration", "simulated networks; chains up to 4100 blocks for the size limits; one input per turn"),
 "P08": (_M + "each offence of a catalogue injected into live sessions with the verdict and state checked in the same turn; accusations against protocol-following peers watched; malformed byte streams through the client service", "exploration", "12 kinds of offence; late, duplicated, shuffled and unsolicited honest traffic"),
 "P01": (_M + "the real protocol state machine driven in a simulated network by hostile peers, churn, commands and virtual time; panics, overflow, livelock and a final liveness probe watched", "exploration", "12 peers, chains of up to 90 blocks with forks, all message types, all commands"),
 "P02": (_M + "online handshake checker over everything that crosses the state machine's boundary; state snapshots around messages sent before the handshake is complete", "exploration", "simulated networks with up to 14 dialed and 7 inbound peers, virtual time"),
 "P03": (_M + "online life-cycle checker (event order, limits, dials, back-off) and bounded-progress checks of the outbound target and of persistent peers", "exploration", "up to 40 peers, refused, hanging and failing dials, disconnections at any point"),
 "P04": (_M + "online ping/pong checker with virtual time", "exploration", "late, missing, wrong and duplicate pongs; pings in the same read as the verack"),
 "P05": (_M + "online checker of header requests, and bounded progress to the best chain served by an honest outbound peer after a quiet period", "exploration", "chains up to 4001 headers, forks, silent, lossy and lying peers"),
 "P06": (_M + "online fold of the block events, compared with the active chain after every turn", "exploration", "reorganisations, imports by the user, hostile headers"),
 "F01": (_M + "stored filter headers compared with those of the true chain after every change, imports matched to outstanding requests, and bounded progress after a quiet period", "exploration", "chains up to 4010 blocks with forks; unsolicited, altered, late and duplicated filter headers; lying peers in a group of their own, where only the structure is judged"),
 "F02": (_M + "each filter received, reported or processed compared with the true filter of the block, and the verdict on its sender, in the same turn", "exploration", "altered, stale, unsolicited and duplicated filters, reorganisations in between"),
 "F03": (_M + "online checker of the scan position, of every match against an independent evaluation of the watch list on the true filter, and of the delivery of matches; completeness after a quiet period", "exploration", "rescans of any range at any time, with all sizes of the filter cache, lossy peers and reorganisations; chains up to 2512 blocks"),
 "I01": (_M + "online checker of announcements with deadlines per peer and transaction, of what is served, and of propagation after a quiet period", "exploration", "peers that don't fetch, don't relay, come and go; reorganisations"),
 "I02": (_M + "status events compared in each turn with a model of submitted and confirmed transactions fed by the processed blocks", "exploration", "transactions of blocks on any branch, re-submission, reorganisations"),
 "I03": (_M + "online checker of requested against delivered blocks, their order and content; completeness after a quiet period", "exploration", "lossy, silent and forging peers, stale and unknown blocks, reorganisations"),
 "A01": (_M + "online checker of every address chosen against the history of the book, bans and connections; the address book compared before and after every turn; frequency of draws from a crowded group", "exploration", "flooded groups, non-routable, IPv6, Tor and stale addresses; refused, hanging and failing dials; 300 draws per distribution"),
 "N01": (_M + "sequence numbers published through the real broadcast channel while threads subscribe, unsubscribe and close; every subscriber's record compared with the publication log; the client's derived streams compared with the events published", "exploration", "up to 8 threads of real, unscheduled concurrency"),
 "N02": (_M + "the real reactor on loopback sockets with keyed byte streams in both directions, an online life-cycle automaton, refused dials, resets, stalls and signals", "exploration", "up to 6 connections at a time, 6 MB per direction; connections that are reset may lose data"),
 "N03": (_M + "the timeout queue compared with a list model; wake-ups of the real reactor timed under traffic, next to a heartbeat that measures the machine's own jitter", "exploration", "cases in which the machine itself stalls are not judged"),
 "N04": (_M + "whole clients in scratch directories: every query logged by the closures the client runs, every answer judged against the history of tips between the two queries around it; peers on loopback sockets for the calls that wait; shutdown at any moment, then every call tried on the dead client", "exploration", "up to 6 threads and 4 peers of real, unscheduled concurrency; a call that takes 30 s is taken to block"),
 "W01": (_M + "the wallet's database, its transaction logic and its event loop on a pseudo-terminal compared with a model of the same history; database copied and re-opened between blocks; screen contents interpreted", "exploration", "up to 25 blocks with chains of spends in a block, rescans of any part, restarts; blocks are never disconnected, no hardware device"),
 "A02": (_M + "address book compared with a reference map after every operation and re-opening; cut and damaged files opened", "fault_enumeration", "every prefix of a flushed file; random mutations"),
}

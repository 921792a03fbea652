NOTES = "Checks are monitors in the Go module harness/, which imports the code under test from /repo and is rebuilt on every run; check.py builds, runs, reads race reports and crashes, and gives the verdict."
PROPS = []
def P(**k): PROPS.append(k)

P(id="C01", title="A cached answer is only ever served to the question it was fetched for",
  statement="Whatever a cache returns is an answer its upstream gave to a query with the same name (in any case), type, class, opcode, DO and CD flags and client subnet, with the caller's own ID and spelling of the name and with records and header as the upstream gave them. This holds for every interleaving of clients, and no client, upstream or pipeline element that changes a message it was given affects what anyone else is served. Truncated answers, answers with other response codes than the cacheable ones, and answers to anything but single-question standard queries are never reused.",
  over=["histories", "schedules", "inputs"], qtext="all histories of queries, sequential and concurrent, that differ in any part of the question, over all option sets of the memory cache",
  why="Tests look at a few hand-picked pairs of queries one after the other; which near-identical queries meet, in which order and how they overlap is not enumerated.",
  files=["cache.go", "cache-memory.go", "lru-cache.go", "cache-blob.go"],
  mechanism=[("lookup and store", "Cache.Resolve"), ("cache key", "lruKeyFromQuery"), ("stored form", "cache-blob.go")],
  check=dict(pkg="cache", technique="online trace monitor: every answer must have an explanation in the log of what the upstream handed out; race detector",
    note="The real cache is driven on virtual time by random sequential and 8-way concurrent histories; the upstream makes every answer unique, so an answer identifies where it came from, and both sides scribble over the messages they own. Sampled, not exhaustive.",
    assumptions=["unique upstream answers identify their source"]))
P(id="C02", title="Cached answers age, expire and are refreshed as their TTLs say",
  statement="Every record served from a cache carries its original TTL minus the whole seconds since it was fetched, nothing is served once the lowest TTL, the negative TTL or the configured cap of its response code has run out, and server failures are kept at most five minutes. Until then a repeated question is answered without asking upstream again. With prefetch enabled, a hit close to expiry refreshes an eligible entry in the background, and later hits are served from the fresher answer.",
  over=["histories", "inputs", "configurations"], qtext="all sequences of queries and elapsed times, all TTLs, response codes and cache options",
  why="Tests use real sleeps of a second or two and a handful of TTLs; boundary instants and long histories are out of reach on a real clock.",
  files=["cache.go", "cache-memory.go", "lru-cache.go"],
  mechanism=[("ageing and expiry", "Cache.answerFromCache"), ("lifetime", "Cache.storeInCache"), ("prefetch", "Cache.Resolve")],
  check=dict(pkg="cache", technique="trace monitor against a reference model of TTL ageing on virtual time; race detector",
    note="Random histories with time steps around every boundary run on a virtual clock, so instants are exact; the model requires both that nothing outlives its TTL and that valid entries are reused.",
    assumptions=["an entry is not required to be reused in its last second"]))
P(id="C03", title="The memory cache stays within its capacity and evicts the least recently used",
  statement="A memory cache never holds more entries than its configured capacity, makes room by dropping the entry that was used or stored longest ago, and keeps every other entry until it expires. A flush query removes every entry and is answered as a success without being sent upstream. Expired entries are collected at the configured interval, and with no capacity set nothing is evicted.",
  over=["histories", "schedules"], qtext="all sequences and interleavings of lookups, stores, expiries and flushes, at all capacities",
  why="Tests insert a fixed list of keys; the recency order after long mixed histories of hits, replacements and flushes, and under concurrent use, is not sampled.",
  files=["lru-cache.go", "cache-memory.go", "cache.go"],
  mechanism=[("recency list", "lruCache.touch/insert/resize"), ("collection", "memoryBackend.startGC"), ("flush", "Cache.Resolve")],
  check=dict(pkg="cache", technique="trace monitor against a reference LRU list on virtual time; race detector; size samples under concurrency",
    note="Each history is compared, step by step, with a reference list that says which query must be a hit and which must reach upstream; concurrent phases check the size bound and the no-stale-after-flush rule. Sampled histories."))
P(id="C04", title="NXDOMAIN hardening denies exactly the names below a cached NXDOMAIN",
  statement="With hardening below NXDOMAIN enabled, a query for a name at or below a name with an unexpired cached NXDOMAIN (same type, class, flags and subnet) is answered NXDOMAIN without asking upstream, with the caller's own question, unless a closer name is cached with another result. Names not below it, labels that merely contain its text or an escaped dot, other types, and everything after the NXDOMAIN expired, are looked up normally. Without the option no such answer is ever made up.",
  over=["histories", "inputs"], qtext="all histories over trees of names of any depth, including labels with escaped dots and mixed case",
  why="Tests use one parent and one child; the walk over labels, its interaction with expiry, case and escapes is open-ended.",
  files=["cache.go", "cache-memory.go", "cache-redis.go"],
  mechanism=[("walk up the labels", "Cache.answerFromCache")],
  check=dict(pkg="cache", technique="trace monitor against a reference tree of denied names on virtual time; race detector",
    note="Random name trees with escaped dots, case changes and time steps; every reply is compared with what the reference tree requires. Sampled."))
P(id="C05", title="A crash or I/O error while saving leaves the old or the new file, complete",
  statement="Whenever the process dies, or any system call fails, while the cache file or a cached blocklist is being written, the file on disk afterwards holds either the complete previous contents or the complete new contents, and the next start loads it. New contents only replace the old once they have been synced. A failed write is not reported as success, and leaves the previous file in place.",
  over=["crash_points", "fault_sequences"], qtext="every system call of the save, killed at or failing with an error, for empty, small and large files",
  why="Unit tests run in one process that never dies inside the save; crash points lie between system calls.",
  files=["atomicfile.go", "cache-memory.go", "blocklistloader-http.go"],
  mechanism=[("write, sync, rename", "writeFileAtomic"), ("callers", "memoryBackend.writeToFile"), ("blocklist cache", "HTTPLoader.writeToDisk")],
  check=dict(pkg="cache", level="fault_enumeration", race=False, technique="crash-point and fault enumeration with strace on the real save in a child process; trace check of sync-before-rename",
    note="Every system call of each kind the save makes is killed and, separately, failed in turn; the surviving file is loaded back and compared with the old and new contents, and the syscall trace must show the sync before the rename. Power-loss reordering is judged by the trace rule, not simulated.",
    assumptions=["rename within a directory is atomic on the file system"]))
P(id="C06", title="A restarted cache serves what was saved, never damaged or expired data",
  statement="After a save and restart, a file-backed cache serves exactly the unexpired entries it had, under their own questions, with TTLs aged across the downtime and recency order kept when the capacity shrank. A missing, truncated, corrupted, foreign or partly valid file never stops the start and never leads to an answer the upstream did not give. Periodic and shutdown saves, in any interleaving with use, leave a loadable file and no leftovers.",
  over=["histories", "inputs", "schedules"], qtext="all histories before and after a restart, all damage to the file, all interleavings of savers and users",
  why="Tests round-trip one small cache and one broken file.",
  files=["cache-memory.go", "lru-cache.go", "atomicfile.go"],
  mechanism=[("save and load", "memoryBackend.writeToFile, loadFromFile"), ("record form", "lruCache.serialize, deserialize")],
  check=dict(pkg="cache", technique="trace monitor across restarts with injected file damage on virtual time; race detector",
    note="Histories continue over several restarts; every answer must be explained by what upstream gave before, aged over the virtual downtime, and undamaged entries must survive. Damage is random bytes, cuts, swaps and foreign records."))
P(id="C07", title="A Redis-backed cache keeps the cache rules and survives any Redis failure",
  statement="With a Redis backend every served answer still satisfies the matching and ageing rules of the cache, also when several processes share the server, and when stored values are damaged, foreign or expired. Any error, hang, disconnect or garbage from Redis only costs a lookup: the query is answered from upstream within the configured timeouts, and the cache is used again when Redis recovers. A flush removes the cache's own entries and no others.",
  over=["fault_sequences", "histories", "schedules"], qtext="all sequences of Redis faults interleaved with queries from several caches sharing the server",
  why="Tests have no Redis server that hangs, lies or dies in mid-operation.",
  files=["cache-redis.go", "cache.go"],
  mechanism=[("store and lookup", "redisBackend.Store, Lookup"), ("flush", "redisBackend.Flush"), ("key", "redisBackend.keyFromQuery")],
  check=dict(pkg="cache", technique="trace monitor with a fault-injecting RESP server on virtual time; race detector",
    note="A fake server speaks the Redis protocol over in-memory connections and injects errors, hangs, disconnects and damaged values; answers are judged by the same explanation rule as the memory cache.",
    assumptions=["the fake server implements the commands the backend uses as Redis does"]))
P(id="C08", title="An upstream client only returns the answer to the query it was asked",
  statement="Over every transport, an answer handed to a caller was sent by the upstream for exactly that query, repeats its question and carries the caller's ID, however many queries are in flight, and however late, duplicated, reordered, unsolicited, misdirected or malformed the upstream's messages are. The caller's query is not changed, each query is sent once per attempt with everything the caller put in it, and message IDs on the wire are distinct among those in flight and not predictable. An honest upstream's answers all arrive.",
  over=["schedules", "inputs", "fault_sequences"], qtext="all interleavings of concurrent queries and upstream messages, over UDP, TCP, DoT, DTLS, DoH (1.1, 2, 3), DoQ and ODoH",
  why="Tests talk to a cooperative local server with one query at a time; misdirected and reordered replies under load are not produced.",
  files=["pipeline.go", "dnsclient.go", "dotclient.go", "dtlsclient.go", "dohclient.go", "doqclient.go", "odohclient.go"],
  mechanism=[("matching of replies", "Pipeline.start"), ("question check", "validateResponseQuestion"), ("streams", "DoQClient.Resolve"), ("requests", "DoHClient.Resolve, ODoHClient.Resolve")],
  check=dict(pkg="upstream", technique="trace monitor: every answer carries a unique token that must have been sent for that very query; hostile servers; race detector",
    note="UDP, TCP, DoT, DoH/1.1, DoH/2 and ODoH clients run on virtual time over in-memory connections, DTLS, DoQ and DoH/3 over loopback sockets. The server side swaps, duplicates, delays, corrupts and misdirects replies from a seeded PRNG. Sampled.",
    assumptions=["a reply that matches in ID and question cannot be told from an honest one"]))
P(id="C09", title="A failing upstream costs a query at most its timeout, and recovery is noticed",
  statement="When an upstream refuses, ignores, stalls, garbles or drops connections or messages at any stage, every query to it, alone or in a burst, returns an answer or an error within the configured timeout. Once the upstream works again queries succeed again without a restart, and stay that way. Clients do not pile up connections meanwhile, and a query that cannot be sent fails alone.",
  over=["fault_sequences", "schedules"], qtext="all sequences of upstream faults and loads, over all transports",
  why="Tests have no upstream that goes silent in mid-handshake, dies and comes back.",
  files=["pipeline.go", "dnsclient.go", "dotclient.go", "dtlsclient.go", "dohclient.go", "doqclient.go", "odohclient.go"],
  mechanism=[("reconnect and timeout", "Pipeline.start, Pipeline.Resolve"), ("QUIC reconnect", "quicConnection.getStream"), ("target config", "ODoHClient.getTargetConfig")],
  check=dict(pkg="upstream", technique="fault injection with deadline and recovery monitors on virtual time; hang detection on sockets; race detector",
    note="Each case injects one kind of fault at a random moment, measures every call on the virtual clock, lifts the fault and requires recovery. The socket transports (and TLS handshakes of DoT) only have hangs far beyond all limits judged. Recovery must come within 45 s of virtual time."))
P(id="C10", title="A group fails over to another member and returns a member's own result",
  statement="A query to a fail-rotate, fail-back, random, round-robin, load-balance or fastest group returns exactly what one of its members returned for that query, in time, and fails only when every member it may ask has failed, by the group's own definition of failure. No member is asked twice for one query, a group that does not broadcast asks no further member after a success, and a deliberate drop is not a failure. The query reaches the members as the caller sent it.",
  over=["schedules", "fault_sequences"], qtext="all outcomes and delays of up to six members for up to dozens of overlapping queries",
  why="Tests run one query at a time against members that always or never fail; overlap, flapping and slow failures are open-ended.",
  files=["failrotate.go", "failback.go", "random.go", "roundrobin.go", "loadbalance.go", "fastest.go", "resolver.go"],
  mechanism=[("failover", "FailRotate.Resolve, FailBack.Resolve, Random.Resolve"), ("broadcast", "Fastest.Resolve"), ("what counts as failure", "FailRotate.isSuccessResponse")],
  check=dict(pkg="groups", technique="trace monitor over scripted members with unique answer tokens on virtual time; race detector",
    note="Every member call and every result is logged with the virtual time; the log of each query is judged against the group's contract. Sampled outcomes, delays and overlaps."))
P(id="C11", title="A group picks the member its policy says",
  statement="A fail-rotate group stays with the member that last worked; a fail-back group returns to the preferred member once its reset time passed without failures; a random group leaves out failing members until their reset time passed and otherwise uses all of them; a round-robin group takes turns; a load-balance group prefers faster members, avoids a failing one and uses it again after it recovered. Failures of queries that overlapped an earlier switch do not switch again.",
  over=["histories", "schedules"], qtext="all histories of failures, recoveries and pauses for all group sizes",
  why="The policies depend on long histories and time; tests sample a few steps.",
  files=["failrotate.go", "failback.go", "random.go", "roundrobin.go", "loadbalance.go"],
  mechanism=[("active member", "FailRotate.errorFrom, FailBack.errorFrom"), ("exclusion", "Random.deactivate, reactivateLater"), ("turns", "RoundRobin.Resolve"), ("weights", "LoadBalance.Resolve")],
  check=dict(pkg="groups", technique="trace monitor against reference state machines on virtual time; statistical bounds for random choices; race detector",
    note="The expected member of each query follows from a small reference model of the documented policy; random and weighted choices are judged by shares with bounds many deviations wide. Sampled."))
P(id="C12", title="Truncated answers are retried, and fastest-tcp only reorders addresses",
  statement="Truncate-retry sends exactly the queries whose answer came back truncated to the retry resolver, unchanged, and returns that result; everything else is returned as it came. Fastest-tcp returns all records of its upstream's answer, each once, with only the addresses of the queried type moved among their places, puts an address that accepts connections first, and leaves the order alone when probing fails. TTLs are only ever raised, to the configured minimum after a successful probe.",
  over=["inputs", "fault_sequences"], qtext="all answers and all mixes of accepting, refusing and silent addresses",
  why="Tests have at most two addresses and no silent ones.",
  files=["truncate-retry.go", "fastest-tcp.go"],
  mechanism=[("retry", "TruncateRetry.Resolve"), ("probes and order", "FastestTCP.probeFastest, probeAll, Resolve")],
  check=dict(pkg="groups", technique="trace monitor over scripted members; record conservation and order monitor with accepting, refusing and silent loopback ports; race detector",
    note="Silent ports are listeners with a full accept queue. Which of several accepting addresses wins is not judged. Sampled."))
P(id="C13", title="Identical queries in flight are sent once, different ones never share",
  statement="While a query is in flight, further queries with the same name, type, class, flags and client subnet are not sent upstream but get its result, each as an independent copy with its own ID and spelling. Queries that differ in any of these, or are not plain single-question queries, never get each other's answers. When the shared query ends, with an answer, an error or a drop, all its waiters return at once, and the next query is sent anew.",
  over=["schedules", "inputs"], qtext="all interleavings of equal and nearly equal queries",
  why="Sharing depends on overlap in time and on single fields of the key; tests try one or two pairs.",
  files=["request-dedup.go"],
  mechanism=[("key", "dedupKey"), ("sharing", "requestDedup.Resolve")],
  check=dict(pkg="groups", technique="trace monitor: result tokens matched with the interval and key of upstream queries on virtual time; race detector",
    note="Callers change their answers after receiving them, so that sharing of memory is seen as a change or a race. Sampled."))
P(id="C14", title="Rate limits hold exactly per client network and window",
  statement="In each window exactly the configured number of queries (or all, if fewer) from each client network pass, and the rest go to the limit resolver or are dropped. Clients are counted together if and only if they lie in the same network of the configured prefix length, and new windows start afresh.",
  over=["schedules", "inputs"], qtext="all client addresses, prefix lengths, limits, windows and interleavings",
  why="Tests use one client; counting under concurrency and prefix arithmetic are open-ended.",
  files=["rate-limiter.go"],
  mechanism=[("counting", "RateLimiter.Resolve")],
  check=dict(pkg="groups", technique="conservation monitor against an exact per-network count on virtual time; race detector",
    note="Sequential and concurrent bursts, often at window edges, from IPv4, mapped IPv4 and IPv6 addresses in equal and neighbouring networks. Sampled."))
P(id="C15", title="The router sends a query to the first route that matches",
  statement="A router hands each query, unchanged, to the resolver of the first route whose conditions (types, class, name, client and subnet networks, listener, path, server name, weekday, time of day) all hold, or do not all hold if the route is inverted, and returns that resolver's result. Without a matching route the query fails.",
  over=["configurations", "inputs"], qtext="all combinations of conditions, queries, clients and times",
  why="Tests check one condition at a time, and none at the edges of time of day.",
  files=["router.go", "route.go"],
  mechanism=[("conditions", "route.match"), ("order", "Router.Resolve")],
  check=dict(pkg="groups", race=False, technique="differential monitor against an independent matcher on virtual time",
    note="Random routers with up to five routes and all conditions; the reference compares strings and bits itself rather than through the libraries the router uses. Regular expressions come from a fixed set with known meanings. Sampled."))
P(id="C16", title="Prefetch repeats popular queries before they expire, and nothing else",
  statement="The prefetch element passes queries and answers through unchanged. It repeats a query of a client, unchanged, whenever its answer expires, as long as it was asked at least the threshold number of times with gaps within the window and got usable answers, and stops when the window has passed or an answer is unusable. It keeps to the configured number of items and does nothing when that is not set.",
  over=["histories"], qtext="all histories of queries, pauses and answers",
  why="It acts in the background over minutes and hours; tests cover pass-through only.",
  files=["prefetch.go"],
  mechanism=[("counting", "Prefetch.Resolve"), ("repeating", "NewPrefetch")],
  check=dict(pkg="groups", technique="trace monitor with must and must-not rules for background queries on virtual time; race detector",
    note="Histories span hours of virtual time. Expiry is noticed within 10 s by design, which the rules allow for. Sampled."))
P(id="C17", title="Blocklists block the listed queries and no others",
  statement="A query blocklist diverts exactly the queries that a rule of its list covers and no rule of its allowlist does: a plain name covers itself, a name with a leading dot also all names below it, and one with a leading '*.' only names below it, compared by whole labels and in any case, besides regular expressions, hosts files and MAC addresses. A diverted query gets NXDOMAIN, the listed address or name, or the answer of the blocklist resolver, and all others reach the next resolver unchanged.",
  over=["inputs", "configurations"], qtext="all rule lists, all queries, all combinations of lists and resolvers",
  why="Tests try a few rules on a few names; the rules interact (several lists, allowlist before blocklist, escaped dots, comments, PTR).",
  files=["blocklist.go", "blocklistdb-domain.go", "blocklistdb-regexp.go", "blocklistdb-hosts.go", "blocklistdb-multi.go", "mac-db.go"],
  mechanism=[("decision", "Blocklist.Resolve"), ("names", "DomainDB.Match"), ("hosts", "HostsDB.Match"), ("regular expressions", "RegexpDB.Match"), ("MAC", "MACDB.Match")],
  check=dict(pkg="lists", technique="differential monitor of every query against an independent matcher over random lists; race detector",
    note="The reference matches label by label from the text of the rules. Regular expressions come from a fixed set with known meanings. Sampled."))
P(id="C18", title="Response and client blocklists act on exactly the listed addresses and names",
  statement="A response blocklist blocks or filters answers holding an address (by network, location or AS number) or a name of its list, or, inverted, one outside it, and a client blocklist refuses or diverts the clients on its list. Everything else passes unchanged, and a filtered answer keeps exactly its other records.",
  over=["inputs", "configurations"], qtext="all lists, answers and clients",
  why="Tests use few networks and answers; networks nest and overlap, and answers mix sections and address families.",
  files=["response-blocklist-ip.go", "response-blocklist-name.go", "client-blocklist.go", "cidr-db.go", "ip-blocklist-trie.go", "ip-db-multi.go", "geoip-db.go", "asn-db.go"],
  mechanism=[("addresses", "ResponseBlocklistIP.Resolve"), ("names", "ResponseBlocklistName.Resolve"), ("clients", "ClientBlocklist.Resolve"), ("networks", "ipBlocklistTrie")],
  check=dict(pkg="lists", technique="differential monitor against independent prefix and name matching; location databases written by the check; race detector",
    note="Answers are generated around the edges of the listed networks. IPv4-mapped IPv6 networks are left out. Sampled."))
P(id="C19", title="Lists are replaced as a whole and only by complete ones",
  statement="A list in force stays in force, complete, until a newer one has been loaded completely and can be parsed; failed, cut-off, stalled or unusable loads change nothing, and later loads still happen. A list that cannot be loaded at start fails the start unless failure is allowed or a cached download exists, and the cached download is always the last complete one. Databases are closed once and never used after.",
  over=["fault_sequences", "schedules"], qtext="all sequences of good and failed loads, all interleavings of reloads and queries",
  why="Reloads happen in the background hours apart; tests load lists once.",
  files=["blocklist.go", "response-blocklist-ip.go", "response-blocklist-name.go", "client-blocklist.go", "blocklistloader-http.go", "blocklistloader-local.go"],
  mechanism=[("refresh", "Blocklist.refreshLoopBlocklist"), ("download", "HTTPLoader.Load"), ("files", "FileLoader.Load")],
  check=dict(pkg="lists", technique="versioned rule sets with scripted load faults on virtual time, state probed throughout; use-after-close monitor and race detector under concurrent reloads",
    note="Faults: refused, HTTP errors, cut bodies, stalls, missing or unreadable files, rules that do not parse. Sampled."))
P(id="C20", title="Only clients in the allowed networks are served",
  statement="A listener with allowed networks passes on queries of clients inside them and of nobody else: others get a refusal, or nothing, and no resolver sees their query. This holds for every kind of listener and request, including oblivious queries and requests relayed for others, and for the address forwarded by a trusted proxy but not by anybody else. Without allowed networks everyone is served.",
  over=["inputs", "configurations"], qtext="all networks, client addresses, forwarding headers and listener kinds",
  why="Tests have a single network and the loopback address; every listener has its own check.",
  files=["listener.go", "dnslistener.go", "dotlistener.go", "dtlslistener.go", "dohlistener.go", "doqlistener.go", "odohlistener.go"],
  mechanism=[("decision", "isAllowed"), ("forwarded address", "DoHListener.parseAndRespond, extractClientAddress"), ("oblivious", "ODoHListener")],
  check=dict(pkg="listeners", technique="monitor of what reaches the resolver from real clients at many loopback addresses, against bitwise prefix matching; race detector",
    note="Real listeners and clients on loopback addresses around the edges of random networks. Sampled."))
P(id="C21", title="The pipeline is told the truth about each client",
  statement="Every query reaches the first resolver with the address its client really has (or that a trusted proxy forwarded for it), the server name it asked for in the TLS handshake, its HTTP path, the listener's ID and protocol, and never those of another client. Forwarding headers of untrusted senders change nothing.",
  over=["inputs", "schedules"], qtext="all mixes of concurrent clients, headers, server names and paths",
  why="Routing, rate limits and blocklists depend on it; tests look at one client at a time.",
  files=["listener.go", "dnslistener.go", "dotlistener.go", "dtlslistener.go", "dohlistener.go", "doqlistener.go", "odohlistener.go"],
  mechanism=[("client information", "ClientInfo"), ("forwarded address", "extractClientAddress"), ("server name", "DoTListener, DoQListener")],
  check=dict(pkg="listeners", technique="monitor comparing what each client knows of itself with what the resolver was told; race detector",
    note="Each query's name identifies its client. Many clients with different loopback addresses, server names and paths at once. Sampled."))
P(id="C22", title="Every query to a listener gets exactly one reply, its own",
  statement="For each query a client sends, on any transport and however many overlap on a connection, the resolver is asked once with that query, and the client gets exactly one reply: the resolver's answer with the query's ID, or SERVFAIL when resolving failed, or nothing when the query was dropped. Queries that are dropped, slow or failing do not keep others from being answered.",
  over=["schedules", "inputs"], qtext="all interleavings of queries, answers, failures and drops, over all listeners",
  why="Tests send one query per connection to a resolver that answers at once.",
  files=["dnslistener.go", "dotlistener.go", "dtlslistener.go", "dohlistener.go", "doqlistener.go", "odohlistener.go"],
  mechanism=[("handling", "listenHandler"), ("HTTP", "DoHListener.parseAndRespond"), ("QUIC streams", "DoQListener.handleStream"), ("oblivious", "ODoHListener")],
  check=dict(pkg="listeners", technique="exactly-once conservation monitor on both ends of real listeners; race detector",
    note="Pipelined queries with random delays, results and drops; every reply is compared with what the resolver returned for it. Sampled."))
P(id="C23", title="Answers keep to the client's message size, encrypted messages are padded",
  statement="An answer over UDP or DTLS is never larger than the client said it takes (512 bytes if it said nothing); one that does not fit is marked truncated and holds only records of the full answer, and an answer that fits is sent whole. Answers over encrypted transports to clients with EDNS0 are padded to the block size within that limit, as are queries to encrypted upstreams; messages on plain transports carry no padding, and padding of one hop is never passed on to the next.",
  over=["inputs"], qtext="all answer sizes, advertised sizes and transports",
  why="Truncation and padding interact at the size limits; tests use small answers.",
  files=["padding.go", "dnslistener.go", "dotlistener.go", "dtlslistener.go", "dohlistener.go", "dotclient.go", "dtlsclient.go", "dohclient.go"],
  mechanism=[("truncation", "listenHandler"), ("padding", "padAnswer, padQuery, stripPadding")],
  check=dict(pkg="listeners", technique="monitor of message sizes, truncation and padding on the wire against the resolver's answers; race detector",
    note="Sizes are spread around every limit and block boundary. A DTLS answer that only fits compressed may go unpadded. Sampled."))
P(id="C24", title="No input takes a listener down or gets through malformed",
  statement="Whatever bytes, requests or broken connections arrive at a listener, it keeps serving well-formed queries of others, does not crash, and hands nothing to the resolver but messages that were sent to it and can be parsed and have a question.",
  over=["inputs", "fault_sequences"], qtext="all byte sequences, HTTP requests and broken handshakes and streams, over all listeners",
  why="The input space is unbounded and attacker-controlled; tests send valid messages.",
  files=["listener.go", "dnslistener.go", "dotlistener.go", "dtlslistener.go", "dohlistener.go", "doqlistener.go", "odohlistener.go"],
  mechanism=[("parsing", "listenHandler, DoHListener.parseAndRespond, DoQListener.handleStream, ODoHListener")],
  check=dict(pkg="listeners", technique="generated hostile traffic against real listeners with liveness probes, panic capture and race detector",
    note="Mutated messages, malformed HTTP, bad oblivious messages, half-open and cut connections. Sampled."))
P(id="C25", title="Data that can be replayed never triggers more than a repeatable query",
  statement="On listeners that accept early data of QUIC or HTTP/3 sessions, a message that arrives before the handshake is complete reaches the resolver only if it is an ordinary query; anything else waits for the handshake or is rejected, and is served normally once the handshake is complete. Resolvers in turn send nothing but ordinary queries as early data.",
  over=["inputs", "schedules"], qtext="all messages and orders of early data and handshake completion",
  why="It takes a client that resumes a session and never completes the handshake, as a replaying attacker would.",
  files=["doqlistener.go", "dohlistener.go", "doqclient.go", "dohclient.go"],
  mechanism=[("early data", "DoQListener.handleStream"), ("HTTP/3", "DoHListener.startQUIC")],
  check=dict(pkg="listeners", race=False, technique="monitor of what the resolver sees from resumed sessions behind a relay that withholds the rest of the handshake",
    note="Without the race detector, because the QUIC library's own internal races would drown everything. Sampled."))

P(id="C26", title="TTL modification keeps every TTL in bounds and changes nothing else",
  statement="With a TTL modifier every record of every section of an answer, except EDNS0 metadata, ends up with a TTL chosen by the configured selection (lowest, highest, average, first, last, random or its own) and then clamped to the configured minimum and maximum. Nothing else about queries, answers, failures and drops changes.",
  over=["inputs", "configurations"], qtext="all answers, bounds and selections",
  why="TTLs at the edges of 32 bits, empty answers, mixed sections and metadata records that use the TTL field for flags are where it goes wrong.",
  files=["ttl-modifier.go"],
  mechanism=[("selection and clamp", "TTLModifier.Resolve")],
  check=dict(pkg="modify", technique="monitor comparing both sides of the element with what the configuration allows, parallel queries, race detector",
    note="Sampled; edge values are favoured."))

P(id="C27", title="Client subnet and EDNS0 rewriting does exactly what is configured",
  statement="The client subnet modifiers add, replace, remove or shorten exactly the client subnet option of the upstream query as configured, never revealing more of the client's address than the configured prefix or than the client itself gave, and the EDNS0 modifiers add or remove exactly the configured option. All other content of the query, the caller's own message and the answer stay as they are.",
  over=["inputs", "configurations"], qtext="all queries, clients and modifier settings",
  why="Both address families, addresses in long form, repeated options and queries without EDNS0 take different paths, and what leaks is the client's address.",
  files=["ecs-modifier.go", "edns0-modifier.go"],
  mechanism=[("client subnet", "ECSModifierAdd, ECSModifierAddIfMissing, ECSModifierPrivacy, ECSModifierDelete"), ("options", "EDNS0ModifierAdd, EDNS0ModifierDelete")],
  check=dict(pkg="modify", technique="monitor of the queries that reach the upstream, compared bit by bit with the client's query and address, parallel queries, race detector",
    note="Sampled."))

P(id="C28", title="Made-up IPv6 addresses embed exactly the IPv4 addresses of the name",
  statement="With DNS64, an AAAA query that has no AAAA records, no error and was not truncated is answered with one AAAA record per configured prefix and A record of the same name, embedding that record's address as RFC 6052 prescribes and keeping owner, TTL, alias chain and truncation. Every other query and answer passes unchanged, and if the addresses cannot be looked up the original empty answer is returned.",
  over=["inputs", "configurations"], qtext="all answers, prefixes of all six lengths and failures of either lookup",
  why="The embedding skips a byte for most prefix lengths, and alias chains, truncated or failing lookups take other paths.",
  files=["dns64.go"],
  mechanism=[("lookup", "DNS64.Resolve"), ("embedding", "synthesizeIPv6"), ("records", "DNS64.synthesizeAAAA")],
  check=dict(pkg="modify", technique="monitor with an independent implementation of RFC 6052, scripted answers and failures for both lookups, parallel queries, race detector",
    note="Sampled."))

P(id="C29", title="Rewritten names are restored and shortened answers keep what was asked",
  statement="With the replace modifier the upstream is asked for the name all rules produce in order, and the client gets the answer under the name it asked for, whatever the case of the upstream's records. Collapsed answers hold exactly the records of the requested type and class under the requested name or the configured code when there are none, and minimised answers exactly the answer section.",
  over=["inputs", "configurations"], qtext="all names, rule lists and answers",
  why="Names the upstream returns in another case, alias chains and rules that feed each other are needed.",
  files=["replace.go", "response-collapse.go", "response-minimize.go"],
  mechanism=[("rewriting", "Replace.Resolve"), ("collapse", "ResponseCollapse.Resolve"), ("minimise", "ResponseMinimize.Resolve")],
  check=dict(pkg="modify", technique="monitor comparing both sides of each element with a reference of its rules, parallel queries, race detector",
    note="Sampled."))

P(id="C30", title="Fixed and templated answers are as configured for every query",
  statement="Static and template responders answer every query, whatever its name, type and class, with its ID and question, the configured code, truncation and extended error and exactly the configured or expanded records in order; records that do not expand to a valid record are left out. Answers share nothing, so changing one never shows in another, and drop elements never answer.",
  over=["inputs", "configurations", "schedules"], qtext="all queries and responder settings",
  why="Expansions that come out empty or invalid depend on the query, and sharing shows only when receivers modify answers.",
  files=["static.go", "static-template.go", "edns0ede.go", "template.go", "drop.go"],
  mechanism=[("fixed records", "StaticResolver.Resolve"), ("templates", "StaticTemplateResolver.Resolve"), ("extended errors", "EDNS0EDETemplate.Apply")],
  check=dict(pkg="modify", technique="monitor with a reference expansion of each template, receivers that scribble over answers, parallel queries, race detector",
    note="Sampled."))

P(id="C31", title="Scripts see and build messages faithfully and cannot break out",
  statement="A Lua script reads and sets every field of messages, records, options and client details with the values they have, and what it passes to a resolver or returns arrives as it is. A script that fails or returns nonsense fails only its own query, however often; queries never share a script's state at the same time, and unless the sandbox is turned off a script has no access to files, processes, other modules or the loading of code.",
  over=["programs", "inputs", "schedules", "histories"], qtext="all scripts and messages",
  why="There is a getter and setter for each field of a hundred record types, and errors that leave something behind show only after thousands of them.",
  files=["lua.go", "lua-script.go", "lua-message.go", "lua-rr.go", "lua-opt.go", "lua-edns0.go", "lua-question.go", "lua-clientinfo.go", "lua-resolver.go", "lua-error.go", "lua-helpers.go", "lua-types.go"],
  mechanism=[("call", "LuaScript.Call"), ("pool", "Lua.Resolve"), ("records", "rrDB"), ("sandbox", "openSandboxedLibs")],
  check=dict(pkg="modify", technique="monitor running generated scripts that check each value they read and rebuild records, options and messages compared bit by bit, thousands of script errors, parallel queries in virtual time, race detector",
    note="Programs are generated from templates; SVCB and APL contents are not reachable by scripts and left out. Scripts that never end are not covered."))

P(id="C32", title="Logging elements change nothing and log every query once",
  statement="The query log and syslog elements pass every query, client, answer, failure and drop on unchanged, also when the log server is missing or goes away. Every query is logged exactly once with its client, name, type, class and client subnet, and syslog has exactly the configured request and answer lines.",
  over=["inputs", "configurations", "fault_sequences"], qtext="all queries, answers, formats and log server failures",
  why="Parallel writers and unusual names and answers are needed to tear or lose lines.",
  files=["query-log.go", "syslog.go"],
  mechanism=[("query log", "QueryLogResolver.Resolve"), ("syslog", "Syslog.Resolve")],
  check=dict(pkg="modify", technique="offline comparison of the written log with the queries sent, monitor of both sides of the element, parallel queries, race detector",
    note="Sampled. A log server that accepts connections but stops reading would block queries and is not covered."))

P(id="C33", title="No forged answer passes the DNSSEC validator",
  statement="Whatever an upstream or someone on the way answers, a validating element passes on only data and denials that agree with what the signed zones publish, up to zones proven to be unsigned, and marks an answer as authentic only if all of it is signed up to a trust anchor. Replayed, renamed, expired or partial records, keys, delegations and denials of other zones, names or times, and answers to other questions do not change that.",
  over=["inputs", "histories", "configurations", "schedules"], qtext="all trees of zones, trust anchors, questions and sequences of upstream answers built from published records and keys of the attacker",
  why="What a proof may be assembled from depends on neighbouring names, delegations, wildcards and hashes; tests use a handful of hand-made answers.",
  files=["dnssec.go", "dnssec/validator.go", "dnssec/denial.go", "dnssec/denial_existence.go", "dnssec/keystore.go"],
  mechanism=[("chain of trust", "Validator.buildChainOfTrust"), ("signatures", "Validator.validateRRset"), ("denials", "Validator.validateDenial, verifyDSDenial"), ("verdict", "DNSSECValidator.Resolve")],
  check=dict(pkg="dnssecmon", technique="attacker between the validator and a generated tree of signed zones with real keys, monitor comparing every accepted answer with the content of the zones, parallel queries in virtual time, race detector",
    note="Attacks are drawn from about 20 kinds and their combinations. ANY and RRSIG queries, other classes, and the content of the authority and additional sections are not judged."))

P(id="C34", title="True answers pass the DNSSEC validator unharmed",
  statement="A true answer of well-run zones, signed or unsigned, passes a validating element with its records unchanged, signatures only if the client asked for them, and is marked authentic exactly if all of it is signed up to a trust anchor. That holds through key rollovers, after failed lookups, for all kinds of denials and delegations, and with trust anchors configured or fetched, of which only those in force count.",
  over=["inputs", "histories", "configurations", "fault_sequences", "schedules"], qtext="all trees of zones, trust anchors, questions, rollovers and failures of lookups",
  why="Zones differ in key setup, denial scheme and delegations, and remembered keys matter only when they change or expire.",
  files=["dnssec.go", "dnssec-iana.go", "dnssec/validator.go", "dnssec/denial.go", "dnssec/denial_existence.go", "dnssec/keystore.go"],
  mechanism=[("verdict", "DNSSECValidator.Resolve"), ("remembered keys", "keystore"), ("anchors", "FetchTrustAnchorsFromURL, Validator.SetAnchor"), ("signatures for clients", "stripDNSSEC")],
  check=dict(pkg="dnssecmon", technique="monitor comparing answers with the content of a generated tree of signed zones, with rollovers, failures and expiry of keys in virtual time, anchors from a loopback server, race detector",
    note="Algorithms 8, 13 and 15; NSEC3 not at the root. Aliases synthesised from DNAME, truncated upstream answers and unknown algorithms are not covered."))

P(id="C35", title="Every option of the configuration has its documented effect",
  statement="The program run on a configuration builds exactly the pipeline it describes: every documented option of groups, modifiers, lists, caches and routers has its effect on queries that go through, whichever of the given files it is in, and elements do not affect each other. It serves until told to end by a signal, then ends cleanly and keeps what it was to keep for the next start.",
  over=["configurations", "inputs", "histories"], qtext="all configurations of documented elements and options",
  why="Tests build elements directly; the way from the file to the element, with dozens of options each read and passed on in one place, is not run by any.",
  files=["cmd/routedns/main.go", "cmd/routedns/config.go"],
  mechanism=[("reading", "loadConfig"), ("groups", "instantiateGroup"), ("routers", "instantiateRouter"), ("lists", "newBlocklistDB, newIPBlocklistDB"), ("shutdown", "start")],
  check=dict(pkg="wiring", race=False, binary=True, binary_race=True, technique="the real program on generated configurations between scripted upstream servers and clients on the loopback network, monitors of both sides for each option, restarts, race detector in the program",
    note="Options are covered one by one with random values and neighbours. Location and ASN databases, network namespaces and firewall marks need files or privileges that are not there."))

P(id="C36", title="Encrypted links accept only the configured identities",
  statement="An upstream reached over TLS, HTTPS, QUIC or DTLS is sent queries only if its certificate is valid under the configured authority for the configured name or address, and a listener that requires client certificates serves only clients with one of its authority. Links with valid identities work, from the configured local address.",
  over=["configurations"], qtext="all combinations of protocols, names, authorities and certificates on both sides",
  why="Each protocol sets up verification in its own way and tests use one certificate that is always right.",
  files=["tls.go", "dtls.go", "dotclient.go", "dohclient.go", "doqclient.go", "dtlsclient.go", "cmd/routedns/resolver.go", "cmd/routedns/main.go"],
  mechanism=[("client settings", "TLSClientConfig, DTLSClientConfig"), ("server settings", "TLSServerConfig, DTLSServerConfig"), ("names", "NewDoTClient, NewDoQClient, dohQuicTransport, NewDTLSClient")],
  check=dict(pkg="wiring", race=False, binary=True, binary_race=True, technique="the real program with resolvers linked to its own listeners over each protocol, monitor of which queries pass under right and wrong certificates, race detector in the program",
    note="Expired certificates and revocation are left to the TLS libraries."))

P(id="C37", title="Listeners and upstream connections follow their settings",
  statement="Listeners serve only the configured addresses, IP version, paths, modes and client networks, and take client addresses from proxies only where these are trusted; connections to upstreams use the configured local address, interface, proxy, method, size, timeout, bootstrap resolver and socket server. What is left out has its documented default.",
  over=["configurations", "inputs"], qtext="all settings of listeners and resolvers for each protocol",
  why="Every protocol implements each setting on its own, and tests reach few of the combinations.",
  files=["cmd/routedns/main.go", "cmd/routedns/resolver.go", "dnsclient.go", "dohclient.go", "doqclient.go", "odohclient.go", "dohlistener.go", "doqlistener.go", "dtlslistener.go", "odohlistener.go", "adminlistener.go", "socks5.go", "xsocket_linux.go", "xsocketserver_linux.go", "net-resolver.go"],
  mechanism=[("listeners", "start"), ("resolvers", "instantiateResolver"), ("proxies", "socks5DialerFromConfig"), ("sockets", "listenInNetNS, dialXSocket")],
  check=dict(pkg="wiring", race=False, binary=True, binary_race=True, technique="the real program between scripted servers, clients, a SOCKS5 proxy and its own socket server on the loopback network, monitors of both sides for each setting, race detector in the program",
    note="Network namespaces and firewall marks need privileges and are not covered; ODoH proxies only reach names on port 443 and are not run against a target."))

P(id="C38", title="Configurations that cannot be honoured are refused at the start",
  statement="Given a configuration with unknown, missing, duplicate or circular references, invalid values, patterns, networks, templates, scripts, certificates or files, or options that exclude each other, the program ends with a message and status 1 before serving any query, and never crashes. The same configuration without the fault starts and serves.",
  over=["configurations"], qtext="all configurations with one fault",
  why="There are hundreds of places for a fault; a missed one leaves a filter or a restriction silently without effect.",
  files=["cmd/routedns/main.go", "cmd/routedns/config.go", "cmd/routedns/resolver.go", "route.go"],
  mechanism=[("references", "start"), ("elements", "instantiateGroup, instantiateRouter, instantiateResolver"), ("patterns", "NewRoute, NewRegexpDB, NewDomainDB, NewCidrDB")],
  check=dict(pkg="wiring", race=False, binary=True, technique="the real program started on generated configurations with one fault each and on their corrected twins, monitor of exit status, messages and listening sockets",
    note="About 230 faults. Unknown keys are ignored by design; secure listeners without any certificate start and then fail every handshake, and are not judged."))

P(id="C39", title="Slow queries hold up nobody and leave nothing behind",
  statement="While queries wait for a slow resolver, whatever element of the pipeline they passed through, queries that differ from them still get through that element and return. Once all queries have ended, with an answer, an error or a drop, the element keeps no goroutine for them, however many there were.",
  over=["schedules", "fault_sequences"], qtext="all elements, all sets of slow queries and all ways for queries to end",
  why="A lock held during a query or an unread channel does no harm to the single fast queries of tests.",
  files=["fastest.go", "failback.go", "failrotate.go", "random.go", "loadbalance.go", "roundrobin.go", "rate-limiter.go", "request-dedup.go", "cache.go", "prefetch.go", "router.go", "blocklist.go", "client-blocklist.go", "response-blocklist-ip.go", "response-blocklist-name.go", "truncate-retry.go", "dnssec.go", "lua.go"],
  mechanism=[("locks", "RateLimiter.Resolve, requestDedup.Resolve, Random.pick, FailBack.errorFrom"), ("abandoned queries", "Fastest.Resolve"), ("script pool", "Lua.Resolve")],
  check=dict(pkg="hold", technique="gated resolvers that hold queries while a monitor waits for others to pass; goroutine census after crowds of queries on virtual time; race detector",
    note="Elements are driven one at a time with two resolvers. Lua elements admit as many queries as their concurrency setting says. Sampled."))

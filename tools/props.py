# -*- coding: utf-8 -*-
NOTES = "One binary (.build/simtest) decides every property; ./check.sh rebuilds it from /repo's working tree. ./replay.sh FILE re-runs a replay file."
SIM = "Sampled schedules and faults, not exhaustive. Trusts the simulator's models of the Go scheduler at statement granularity, of the kernel's file semantics and of the network (DESIGN.md lists which parts run real code and which are stubs)."
NOT_APPLICABLE = []
PROPS = [
 dict(id="C01", title="Acknowledged metadata survives crashes; a change is stored wholly or not at all",
  statement="Whatever moment a metadata server is killed, loses power (unsynced writes lost or torn, in any subset) or meets a failing disk (write or sync errors, disk full), it starts again by itself, and then serves exactly the effects of some sequential execution that contains every operation it acknowledged and each unacknowledged one wholly or not at all: record, versions, counters, bucket, and the lookup by content hash agree with each other. The server's own configuration file is always readable after a crash, and an operation that failed to reach the disk is never acknowledged.",
  over=["crash-points","faults","histories","schedules"], quant="every point at which the process can stop, every subset of unsynced disk writes lost or torn, every placement of disk errors, every history of operations of concurrent clients",
  why="Tests never kill the process between two disk writes nor make a write fail.",
  files=["src/metaserver/internal/usecase/db/storage.go","src/metaserver/internal/usecase/repo","src/metaserver/internal/usecase/logic","src/metaserver/config/config.go","src/metaserver/internal/app/app.go"],
  mech=[("bolt transactions","src/metaserver/internal/usecase/db/storage.go"),("config file","src/metaserver/config/config.go")],
  observe=["HTTP and gRPC answers of the metadata server before and after restarts"],
  note="Real server and real bbolt on a simulated disk that loses or tears unsynced writes. "+SIM),
 dict(id="C02", title="A replicated metadata group keeps every acknowledged write and converges",
  statement="In a raft group of metadata servers, a write acknowledged by any server is in the state every server shows afterwards, exactly once, whatever minority crashes, power failures, graceful restarts, leader changes, network partitions, slow links, clock differences, log compactions and snapshot installations happen. Only the leader takes writes: a follower refuses without effect. Once faults stop, the group takes writes again within bounded time, all servers show the same content, and that content is explained by a sequential execution of the acknowledged operations plus any unanswered ones.",
  over=["crash-points","faults","histories","schedules"], quant="every schedule of 3-5 servers with crashes, restarts, partitions, delays and clock differences at any point",
  why="Tests run no raft group at all; losing or repeating a log entry needs a crash or leader change at a particular point.",
  files=["src/metaserver/internal/usecase/raftimpl","src/metaserver/internal/usecase/db/storage.go","src/metaserver/internal/usecase/repo","src/metaserver/internal/usecase/service","src/metaserver/internal/controller"],
  mech=[("raft log replication","src/metaserver/internal/usecase/raftimpl/raft_impl.go"),("state machine and snapshots","src/metaserver/internal/usecase/raftimpl/fsm_impl.go"),("leader-only writes","src/metaserver/internal/controller/http/middleware.go")],
  observe=["HTTP and gRPC answers of every server of the group"],
  note="Real metadata servers with real hashicorp/raft, raft-boltdb and bbolt over simulated disks and network. "+SIM),
 dict(id="C03", title="Reads and writes on a metadata server are linearizable per record",
  statement="On one metadata server, all operations of concurrent clients on a metadata record and its versions, or on a bucket, over HTTP and gRPC, behave as if executed one at a time, each taking effect at some moment between its call and its answer. In particular a read never returns an older value than one that was already acknowledged or observed, whatever was cached before, and a write is refused only for the documented reason (exists, missing, not newer).",
  over=["schedules","histories","inputs"], quant="every interleaving of concurrent requests with each other and with the server's caches and background work, every cache size, every mix of operations",
  why="The existing tests call single repositories sequentially; races between cache filling, cache invalidation and database transactions need particular schedules.",
  files=["src/metaserver/internal/usecase/repo/metadata_repo.go","src/metaserver/internal/usecase/repo/bucket_repo.go","src/metaserver/internal/usecase/service/metadata_service.go","src/metaserver/internal/usecase/logic/metadata_logic.go","src/metaserver/internal/controller/http","src/metaserver/internal/controller/grpc"],
  mech=[("bolt transactions","src/metaserver/internal/usecase/db/storage.go"),("cache in front of the database","src/metaserver/internal/usecase/repo/metadata_cache_repo.go")],
  observe=["HTTP and gRPC answers of the metadata server"],
  note="Histories of 2-4 concurrent clients are checked against a sequential model of a record by an exact linearizability checker. "+SIM),
 dict(id="C04", title="Versions number upwards without reuse, and latest, lists and pages are exact",
  statement="Every version added to a metadata record gets a number greater than every number given before in the life of that record (whatever versions were deleted since, even all of them) and its answer tells that number; reads by number give exactly that version; 'latest' (version -1 or absent) is the existing version of the highest number; first and latest shown on a record agree with the versions that exist; the list of versions is complete, without duplicates and in numeric order beyond 9, 10, 99 and 100 versions, and pages of any size partition it exactly; the list of records by prefix is complete, exact and ordered. Removing a record removes all its versions and nothing of any other record, also when one name is a prefix of another or contains the separators used in keys. All this also holds right after a restart.",
  over=["histories","inputs","crash-points"], quant="every history of adds, updates and deletions on records with similar names, every page size and number, every restart point",
  why="Tests use one or two versions of one name; key order, prefix collisions and page boundaries need long histories over many names.",
  files=["src/metaserver/internal/usecase/repo/metadata_repo.go","src/metaserver/internal/usecase/logic/metadata_logic.go","src/metaserver/internal/usecase/service/metadata_service.go","src/metaserver/internal/controller/http","src/metaserver/internal/controller/grpc"],
  mech=[("bolt bucket per record with a sequence","src/metaserver/internal/usecase/logic/metadata_logic.go")],
  observe=["HTTP and gRPC answers of the metadata server"],
  note="Every answer is compared with a reference model in the simulated run. "+SIM),
 dict(id="C05", title="Lookup by content hash is exact and locate updates are all-or-nothing",
  statement="At any time the lookup by a content hash gives exactly the existing versions with that hash: none missing, none deleted or changed, none of another hash, whatever versions and records were added, updated or removed before. An update of one shard location of a hash, once acknowledged, shows in every version of that hash that has such a shard, and changes nothing else, on every server of a raft group; concurrent updates of different locations never lose one another; an update that crashed in the middle shows in all versions or in none.",
  over=["histories","schedules","crash-points","faults"], quant="every history over versions that share hashes, every interleaving of locate updates with each other, with crashes, leader changes and partitions",
  why="The index is kept in a second structure beside the versions; disagreement needs a particular history, interleaving or crash point.",
  files=["src/metaserver/internal/usecase/logic/hash_index_logic.go","src/metaserver/internal/usecase/repo/hash_index_repo.go","src/metaserver/internal/usecase/repo/metadata_repo.go","src/metaserver/internal/usecase/service/metadata_service.go"],
  mech=[("hash index","src/metaserver/internal/usecase/logic/hash_index_logic.go")],
  observe=["GET /version/list?hash and PATCH /version/locate on every server"],
  note="Single server and raft groups of three; reference model and atomicity check on every read. "+SIM),
 dict(id="C10", title="An object is read back exactly as it was stored, whole or from any offset",
  statement="What a client stored with an acknowledged PUT of an object is what every later GET of that version returns, byte for byte, through any API server of the cluster, for every size, storage strategy (erasure coding with any number of data and parity shards, or replication), compression setting and bucket setting; a GET from an offset returns exactly the bytes from that offset on; the length told in the answer is exact; a read without version returns a version at least as new as the newest acknowledged before the read began. A body that does not match its digest never becomes visible (with checksums on). A refused or broken transfer is never presented as a complete one.",
  over=["inputs","schedules","histories"], quant="every size around block, page, shard and buffer boundaries, every strategy and setting, every interleaving of concurrent PUTs and GETs of the same and other names, every offset",
  why="Tests encode one small buffer in memory; stripes, padding, offsets and concurrent versions need the whole path of API server, metadata server and object servers under many sizes and schedules.",
  files=["src/apiserver/internal/usecase/service","src/apiserver/internal/controller/http/objects_api.go","src/apiserver/internal/usecase/repo","src/objectserver/internal/usecase/service","src/common/util/crypto","src/apiserver/internal/usecase/webapi"],
  mech=[("Reed-Solomon streams","src/apiserver/internal/usecase/service/rs_decoder.go"),("replica streams","src/apiserver/internal/usecase/service/copy_get_stream.go"),("two-phase PUT through temp objects","src/apiserver/internal/usecase/service/object_service.go")],
  observe=["PUT and GET /v1/objects/:name on every API server"],
  note="Real API, metadata and object servers in one simulated process; every answered byte is compared. "+SIM),
 dict(id="C11", title="Reads stay exact while shards or copies up to the redundancy are lost",
  statement="An object stored with k data and m parity shards is read back byte for byte, whole or from any offset, as long as any k of its shards can be read, and a replicated object as long as one copy can be read: whichever of its shards or copies are deleted, cut short, unreadable on their disk, or on servers that are down, unreachable or failing, before the read begins or while it runs. With fewer left, the read ends with an error or a broken connection; it never delivers wrong bytes, nor an answer that looks complete but is not.",
  over=["inputs","schedules","faults","crash-points"], quant="every subset of lost shards or copies, every kind and moment of loss, every offset, size and layout, while clients read concurrently",
  why="Tests decode buffers with all shards present; a loss in the middle of a stream, or a loss together with an offset, needs failing servers and disks under a running read.",
  files=["src/apiserver/internal/usecase/service","src/apiserver/internal/usecase/webapi","src/apiserver/internal/usecase/pool","src/objectserver/internal/usecase/service","src/objectserver/internal/controller/http"],
  mech=[("Reed-Solomon reading and reconstruction","src/apiserver/internal/usecase/service/rs_decoder.go"),("choice among the copies","src/apiserver/internal/usecase/service/copy_get_stream.go")],
  observe=["GET /v1/objects/:name on every API server, with shard files removed, cut or failing, and object servers killed or isolated"],
  note="Real API, metadata and object servers. A server that accepts connections and never answers is out of scope (the HTTP client has no timeout). "+SIM),
 dict(id="C12", title="Reading a damaged object restores its lost shards and copies",
  statement="When a whole read meets lost shards (or copies) of an object that can still be read, the cluster recreates them from the rest: soon afterwards every shard exists again with exactly its original bytes on a server where the recorded locations point to, so that the object survives the loss of as many further shards as it tolerated at first, again and again; a repair never spoils a shard or a location that was good, never counts one shard twice, and a repair that itself fails or crashes leaves the object as readable as before.",
  over=["histories","faults","schedules","crash-points"], quant="every sequence of losses and reads, every subset of lost shards, concurrent reads and repairs of the same object, repairs that fail or crash halfway",
  why="Redundancy that silently erodes shows only after several rounds of loss and repair, when the last good shard goes.",
  files=["src/apiserver/internal/usecase/service","src/apiserver/internal/usecase/logic","src/apiserver/internal/usecase/repo","src/metaserver/internal/usecase/service","src/objectserver/internal/usecase/service"],
  mech=[("rewriting of lost shards","src/apiserver/internal/usecase/service/rs_rewrite_stream.go"),("repair of copies","src/apiserver/internal/usecase/service/copy_fix_stream.go")],
  observe=["GET /v1/objects/:name, the files on the object servers and the locations in the metadata"],
  note="Real API, metadata and object servers. "+SIM),
 dict(id="C13", title="Uploads become visible whole or not at all, and stay so under failures",
  statement="Whatever fails while an object is uploaded (a client that stops or sends a wrong digest, API, metadata or object servers that crash or terminate, networks that refuse, cut or lose answers, disks that are full or fail), the upload becomes a version with its exact content or never becomes visible; every version the cluster lists can be read with the listed size once the servers are back, every acknowledged upload is among them, all shards or copies of a visible version are stored on the servers it names, version numbers are not used twice, and within bounded time after the last failure uploads succeed again and nothing of unfinished ones is left on the object servers.",
  over=["faults","crash-points","schedules","histories"], quant="every failure and combination of failures of clients, servers, network and disks at every moment of an upload",
  why="The upload spans metadata and several object servers in two phases; half-finished ones only show when something fails in between.",
  files=["src/apiserver/internal/usecase/service","src/apiserver/internal/controller/http","src/apiserver/internal/usecase/webapi","src/metaserver/internal/usecase/service","src/objectserver/internal/usecase/service"],
  mech=[("two-phase PUT through temp objects","src/apiserver/internal/usecase/service/object_service.go"),("expiry of temp objects","src/objectserver/internal/usecase/service")],
  observe=["PUT, GET /v1/objects/:name and the list of versions after all failures have ended; the files of the object servers"],
  note="Losses are bounded so that what was acknowledged must survive: processes and networks may fail all together, disks of object servers only in their current operation. "+SIM),
 dict(id="C15", title="An object server keeps acknowledged objects across crashes, exact or not at all",
  statement="Whatever moment an object server is killed, loses power or meets a failing or full disk, it starts again by itself and serves every object whose storing it acknowledged (directly or by committing a temp object), byte for byte, and an object that was being stored is served whole or not at all, never cut or mixed; an object whose deletion was acknowledged does not come back. The server's answer whether it has an object agrees with whether it can serve it, and the capacity it reports equals the space its objects take, after any history of storing, deleting, crashing and restarting.",
  over=["crash-points","faults","histories","schedules"], quant="every point at which the process can stop, every subset of unsynced disk writes lost, every placement of disk errors, every history of concurrent operations",
  why="Tests write files on a healthy disk and never stop between a write and its sync.",
  files=["src/objectserver/internal/usecase/service","src/objectserver/internal/db","src/objectserver/internal/controller/http","src/objectserver/internal/usecase/pool"],
  mech=[("publication of object files","src/objectserver/internal/usecase/service"),("path cache, object marks and capacity","src/objectserver/internal/db")],
  observe=["GET, HEAD, PUT, DELETE /objects/:name, /temp/:name and /stat of an object server"],
  note="Real object server on a simulated disk. Directory operations (create, rename, unlink) are taken as durable at once. "+SIM),
 dict(id="C16", title="A temp object becomes an object exactly once, with exactly the parts it took",
  statement="A temp object holds exactly the concatenation of the parts whose appending was acknowledged, in order (an append that failed leaves no trace or leaves the temp object unusable, never a changed middle); committing it makes an object of exactly those bytes and consumes it; dropping it leaves nothing behind; a part that would exceed the announced size, or comes after commit, drop or expiry, is refused. A temp object that nobody finishes is removed together with its file within bounded time, also when the server crashed or restarted meanwhile.",
  over=["histories","schedules","crash-points","faults"], quant="every interleaving of parts, commits, drops and expiry on the same and different temp objects, every crash point and disk error",
  why="The life of a temp object spans requests, a cache with expiry and a file; leaks and double commits need a particular order of them.",
  files=["src/objectserver/internal/usecase/service","src/objectserver/internal/usecase/component","src/objectserver/internal/controller/http"],
  mech=[("temp object cache with expiry","src/objectserver/internal/usecase/service")],
  observe=["POST, PATCH, HEAD, GET, PUT, DELETE /temp/:name and the files in the server's storage directory"],
  note="Real object server on a simulated disk and clock. "+SIM),
]

def P(**k): PROPS.append(k)

P(id="C14", title="A resumable upload continues where it broke off and is exact in the end",
  statement="A resumable upload (POST, HEAD and PATCH of /v1/big) may be sent in any parts, through any API server, broken off, repeated and resumed any number of times, across restarts of API servers: HEAD tells a size that is a multiple of Min-Part-Size (or the full size), never more than was sent and never less than what an acknowledged part stored; a part that does not begin at that size is refused and changes nothing; the upload becomes visible as a version with exactly the announced content once its last part is acknowledged, and not before it is complete; an upload that is too long or whose digest is wrong is refused and never visible; it is taken as a duplicate of stored content only if that content was really stored; what nobody finishes is removed.",
  over=["inputs","schedules","faults","crash-points","histories"], quant="every division into parts, every interruption and repetition, every size and layout, concurrent uploads, failures of servers and networks in between",
  why="Tests never interrupt an upload; block boundaries, unflushed tails and shards that took different amounts appear only in particular sequences of interrupted parts.",
  files=["src/apiserver/internal/controller/http/big_api.go","src/apiserver/internal/usecase/service","src/objectserver/internal/usecase/service","src/objectserver/internal/controller/http"],
  mech=[("resumable stream over temp objects","src/apiserver/internal/usecase/service/rs_resumable_stream.go"),("temp objects","src/objectserver/internal/controller/http")],
  observe=["POST, HEAD, PATCH of /v1/big and GET of /v1/objects on every API server; the files of the object servers"],
  note="Real API, metadata and object servers. A client that repeats a part while its first attempt may still be running is judged only with checksums on. "+SIM)

P(id="C19", title="Every live server is registered once, in its role, and all servers know it",
  statement="Within bounded time after failures end (leases that expire, the registry unreachable or failing, servers that crash, stop, restart or stall, leaders that change), the registry holds exactly one entry for every running server, with its address and, for metadata servers, under the role it has (master for the leader of a group or a single server, slave for others), and none for servers that are gone; every API, object and admin server lists exactly the running servers under their exact ids, each once, and takes exactly the leaders for masters; and it stays so.",
  over=["faults","schedules","histories","crash-points"], quant="every sequence of lease losses, registry outages, crashes, restarts and leader changes, every order of the events they cause",
  why="Registration, lease renewal, role change and watching run concurrently and each can fail; a lost retry or two events in the wrong order leave a server invisible or in the wrong role until it restarts.",
  files=["src/common/registry","src/metaserver/internal/usecase/logic","src/metaserver/internal/usecase/raftimpl","src/metaserver/internal/app","src/objectserver/internal/app","src/apiserver/internal/app"],
  mech=[("lease lifecycle","src/common/registry/etcd_lifecycle.go"),("registration","src/common/registry/etcd_registry.go"),("discovery by watching","src/common/registry/etcd_discovery.go"),("leader change events","src/metaserver/internal/usecase/raftimpl/raft_impl.go")],
  observe=["the keys under goodfs/registry in etcd","the discovery of every server"],
  note="Real servers against a model of etcd with leases, watches, compaction and outages. "+SIM)

P(id="C18", title="Object servers leave and join without losing or miscounting an object",
  statement="An object server told to leave moves everything it stores to the others: when it says it has left, it holds no object any more and no version names it; a server told to join takes its part and is used again, any number of times, also after it left before, restarted or failed half way. Every acknowledged object stays readable byte for byte afterwards, every shard and copy is stored whole at the server its version names, every server's capacity equals the space its objects take, and no temporary file stays behind, whatever failed meanwhile: a move that failed is reported as failed, has removed nothing that was not stored elsewhere, and can be repeated. With nothing wrong in the cluster, leaving and joining succeed and reading objects meanwhile succeeds within a few attempts.",
  over=["faults","schedules","histories","crash-points"], quant="every sequence of leaving, joining, stopping and uploading, every layout and sharing of contents, every placement of crashes, network and disk failures in a move, reads at any moment",
  why="A move copies, publishes, redirects and deletes each file over several servers concurrently; a file that was half received, or deleted before every record names its new place, needs a failure at that point to be seen.",
  files=["src/objectserver/internal/usecase/service/migration_service.go","src/objectserver/internal/controller/grpc/migration_server.go","src/objectserver/internal/usecase/pool","src/objectserver/internal/app","src/metaserver/internal/usecase/repo"],
  mech=[("sending, receiving and finishing of files","src/objectserver/internal/usecase/service/migration_service.go"),("leave and join commands","src/objectserver/internal/controller/grpc/migration_server.go")],
  observe=["LeaveCommand and JoinCommand over gRPC; GET /v1/objects; the locate lists of versions; GET /stat and the files of object servers"],
  note="Real API, metadata and object servers. Uploads run between moves, not during one; disk errors are placed on files of objects. "+SIM)

P(id="C24", title="A bucket's settings govern its uploads and keep exactly its newest versions",
  statement="Creating, changing and deleting buckets takes effect with the acknowledgement: reading a bucket through any API server gives exactly the acknowledged settings or 404, creating one that exists and changing one that does not are refused and change nothing. An upload is accepted if and only if the bucket exists and is not readonly at some moment during the upload (400 and 404 otherwise), and is stored with the strategy, shards, copies and compression the settings in force ask for. Of each object a bucket keeps the newest VersionRemains versions (one if versioning is off): once uploads settle exactly the newest ones are left, no more, whatever uploads ran concurrently; a version with fewer newer ones than the limit is never removed and stays readable; removed versions are gone (404) while their numbers are not given again.",
  over=["schedules","histories","faults","inputs"], quant="every history of changing settings concurrent with uploads and reads through several API servers, every failure between an upload and the removal of old versions",
  why="Removal of old versions runs behind the answer of an upload and races with other uploads and changed settings; tests use one bucket, never changed.",
  files=["src/apiserver/internal/usecase/service/meta_service.go","src/apiserver/internal/usecase/service/object_service.go","src/apiserver/internal/entity/metadata.go","src/apiserver/internal/usecase/repo","src/apiserver/internal/controller/http","src/metaserver/internal/usecase/service"],
  mech=[("removal of exceeded versions","src/apiserver/internal/usecase/service/meta_service.go"),("layout from bucket settings","src/apiserver/internal/entity/metadata.go")],
  observe=["/v1/bucket, /v1/objects, /v1/metadata/:name/versions of every API server; version records of the metadata server"],
  note="Real API, metadata and object servers. A version may be left over after a failure until the next upload of that object. "+SIM)

P(id="C26", title="Only requests with valid credentials are executed",
  statement="With authentication switched on, a request to an API server's /v1 is executed only if it carries the name and password stored in the registry at some moment while it ran, or if the callback server, asked about exactly this request (bucket, name, version, method, with the configured parameters), answered that it is allowed; everything else is refused (401/403) without any effect on objects, buckets or uploads. Whatever carries valid credentials is accepted while nothing fails; a credential changed by the administrator takes effect at once on every API server. Under failures - the registry or the callback server unreachable, slow, dying or answering nonsense, servers restarting - requests may be refused, but none is let through. The stored credential is set from the configuration only if there is none; no API server ever changes, empties or invents one, whatever fails as it starts. /ping and /config, and everything with authentication off, need none.",
  over=["faults","histories","inputs","schedules"], quant="every history of requests with right, outdated, malformed, foreign and missing credentials, credential changes and restarts, and every failure of the registry, the network and the callback server at any point",
  why="What decides is the order of a credential change and a request, and what happens when the registry or the judge fails between the steps of a check or of a start; the repository's tests cover neither.",
  files=["src/apiserver/internal/usecase/componet/auth/password_validator.go","src/apiserver/internal/usecase/componet/auth/callback_validator.go","src/apiserver/internal/controller/http/server.go"],
  mech=[("password validator over etcd","src/apiserver/internal/usecase/componet/auth/password_validator.go"),("callback validator","src/apiserver/internal/usecase/componet/auth/callback_validator.go"),("middleware chain","src/apiserver/internal/controller/http/server.go")],
  observe=["every /v1 route of an API server, with and without Authorization or callback parameters","etcd key api_credential","requests the callback server receives","version records and buckets on the metadata server"],
  note="Real API, metadata and object servers; the callback server is a stand-in which can deny, fail, stall and answer nonsense. "+SIM)

P(id="C25", title="The administration console shows and does exactly what the servers hold",
  statement="What the administration server answers is what the other servers hold, however many metadata servers share it. Walking the pages of names or of buckets, for any prefix and page size, gives every matching object or bucket exactly once, in order, and the total it reports is their number; a page is refused, never silently short, if one of the servers does not answer. The list of versions of an object is the API server's. An upload through the console is acknowledged only when the object is stored, whole and under exactly the given name, and can be read from then on; a download answered as complete is byte-exact the version that was asked for, and one that breaks off can be told from a complete one. A bucket command changes exactly the bucket it names, with whatever characters in its name, as if sent to the API server; the user's own credentials decide, and a request without valid ones has no effect. Once failures stop the console works again on its own, and its overview of servers and the usage it records over time cover exactly the servers that run.",
  over=["faults","histories","inputs","schedules"], quant="every history of uploads, downloads, listings and bucket commands through the console, any names, prefixes and page sizes, every spread of names over metadata servers, and every failure of the network, the registry or a server at any point",
  why="Pages are merged from several servers asked at once, uploads and downloads are relayed, credentials and names are passed on: what goes wrong needs an uneven spread, a server failing in the middle or an unusual name; the repository tests none of this.",
  files=["src/adminserver/internal/controller/http","src/adminserver/internal/usecase/logic","src/adminserver/internal/usecase/webapi","src/adminserver/internal/usecase/db"],
  mech=[("merging of pages","src/adminserver/internal/usecase/logic/metadata_logic.go"),("relaying to API servers","src/adminserver/internal/usecase/webapi/api_server.go"),("usage over time","src/adminserver/internal/usecase/db/server_stat_db.go"),("listing on a metadata server","src/metaserver/internal/usecase/repo/metadata_repo.go")],
  observe=["the console's HTTP API: /api/metadata/{page,versions,buckets,create_bucket,update_bucket,delete_bucket}, /api/objects/{upload,download}, /api/server/{stat,overview,timeline}","version and bucket records of the metadata servers"],
  note="Real administration, API, metadata (1-3 with disjoint slots) and object servers. Not judged: names with ; , or / (API servers keep those in escaped form), the session cookie, commands for migration and cluster membership (C02, C07, C18 drive those directly), requests while no API server is known. "+SIM)

P(id="C07", title="Moving slots between metadata servers keeps every record, at exactly one owner",
  statement="When slots are moved from one metadata server (or group of servers) to another, then at every moment every slot has exactly one owner in the stored assignment, and no name is ever served by nobody for good: whether a move succeeds, fails or is interrupted by crashes, lost messages or an unreachable registry, it is settled within bounded time as moved as a whole or not at all, the owner then answers for its slots and everyone else refuses them. Every acknowledged write on a moved name survives the move, before, during and after it: metadata, versions with their numbers, times, hashes and locates, buckets, and what is found by hash; nothing that was deleted comes back, numbers given after the move continue those given before, and writes during a move are refused or kept, never dropped. Moves may be repeated in any order and direction; a move of slots the source does not own, or to a server that cannot take them, is refused and changes nothing. With nothing failing, a move succeeds.",
  over=["schedules","faults","crash-points","histories"], quant="every sequence of moves between servers and groups of servers, every interleaving of them with reads and writes, every placement of crashes, restarts, leader changes, lost and delayed messages and registry failures",
  why="A move streams records while clients write, then changes two records in the registry and deletes at the source: losses and double owners need a write, a crash or a lost answer at one point between these steps; the tests only merge ranges of numbers.",
  files=["src/metaserver/internal/usecase/service/hashslot_service.go","src/metaserver/internal/usecase/db","src/metaserver/internal/usecase/logic","src/metaserver/internal/controller/grpc","src/common/hashslot","src/metaserver/internal/usecase/repo"],
  mech=[("migration protocol","src/metaserver/internal/usecase/service/hashslot_service.go"),("ranges of slots","src/common/hashslot/hash_slot.go"),("slot records in etcd","src/metaserver/internal/usecase/db/hashslot_db.go")],
  observe=["the HashSlot gRPC service; the metadata HTTP API of every server; the keys under goodfs/hash_slot in etcd"],
  note="Real metadata servers (standalone and raft groups of three) against a model of etcd. Reads at followers of a group that gave slots away, from their cached assignment, are not judged. "+SIM)

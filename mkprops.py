import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(observe),hook_needed=None)))

p("C01","Every request frame carries its exact length and the negotiated header",
 "For every kind of request, every content and every protocol version the client supports for it, the encoded bytes start with a big-endian 32-bit count equal to the number of bytes that follow it, followed by the request's API key, the version it was set to, its correlation id and its client id (null client id as a null string), plus an empty or populated tag section exactly when that version's header is the flexible one. Re-using a request object with another version yields the header of the new version.",
 ["inputs","configurations"],"all request kinds, all field values, all supported versions, all sequences of version changes on one request object",
 "The tests encode one or two hand-picked values per request; the length prefix is computed by a separate size formula per request that must agree with the encoder for all contents.",
 ["request.go","healer_tags.go","tagged_fields.go","*_request.go"],
 [("header encoding and header-version selection","request.go"),("length/Encode pairs of every request","*_request.go")],
 observe=["the byte slice returned by encoding a request"])
p("C02","Data-path and group requests follow the Kafka wire format",
 "Requests for metadata, offsets, fetch, produce, coordinator lookup, group join/sync/heartbeat/leave, offset commit/fetch, group listing/description, API versions and SASL are encoded so that a broker reading the documented layout of that version recovers exactly the field values the caller supplied: every topic, partition, offset, member, timeout and payload, in order, nothing truncated, added or misplaced. Encoding never panics for values the protocol can represent.",
 ["inputs","configurations"],"all field values representable in the protocol, arrays of any length, null and empty variants, each supported version",
 "Tests compare one golden value per request, mostly with one topic and one partition; layout bugs that need several partitions, empty or null fields or another version do not show.",
 ["metadata_request.go","offset_request.go","fetch_request.go","produce_request.go","findcoordinator_request.go","joingroup_request.go","sync_group_request.go","heartbeat_request.go","leave_group_request.go","offset_commit_request.go","offset_fetch_request.go","list_groups_request.go","describe_groups_request.go","apiversions_request.go","sasl_handshake_request.go","sasl_authenticate_request.go","group.go"],
 [("Encode methods","*_request.go"),("member metadata / assignment encoding","group.go")])
p("C03","Administrative requests follow the Kafka wire format",
 "Requests that create or delete topics, partitions, groups and ACLs, alter or describe configs, reassign partitions, elect leaders and describe log directories or ACLs are encoded so that a broker reading the documented layout of that version recovers exactly the values the caller added: every entry in order, flags, null-versus-empty distinctions, timeouts. Encoding never panics for values the protocol can represent.",
 ["inputs","configurations"],"all field values representable in the protocol, arrays of any length, null and empty variants, each supported version",
 "Golden-value tests cover one small example per request and one version.",
 ["create_topics_request.go","delete_topics_request.go","create_partitions_request.go","delete_groups_request.go","alter_config_request.go","incremental_alter_config_request.go","describe_configs_request.go","alter_partition_reassignments_request.go","list_partition_reassignments_request.go","elect_leaders_request.go","describe_logdirs_request.go","create_acls_request.go","delete_acls_request.go","describe_acls_request.go"],
 [("Encode methods","*_request.go")])
p("C04","Data-path and group responses are decoded faithfully",
 "For every well-formed broker response to a metadata, offsets, coordinator, group join/sync/heartbeat/leave, offset commit/fetch, produce, group listing/description, API-versions or SASL request, in every supported version, decoding yields exactly the values on the wire (ids, names, offsets, error codes, replica lists, member payloads) in order, and does not panic. A response whose length prefix disagrees with its size is rejected with an error wherever a length check is made.",
 ["inputs","configurations"],"all well-formed responses: any array lengths, any values, null and empty variants, each supported version",
 "Decoder tests replay one captured response each; offset arithmetic after variable-length or repeated fields is only right for all inputs if every field consumes exactly its own bytes.",
 ["metadata_response.go","offset_response.go","findcoordinator_response.go","joingroup_response.go","sync_group_response.go","heartbeat_response.go","leave_group_response.go","offset_commit_response.go","offset_fetch_response.go","produce_response.go","list_groups_response.go","describe_groups_response.go","apiversions_response.go","sasl_handshake_response.go","sasl_authenticate_response.go","group.go"],
 [("New...Response / decode functions","*_response.go")])
p("C05","Administrative responses are decoded faithfully",
 "For every well-formed broker response to a topic, partition, group, config, reassignment, leader-election, log-directory or ACL administration request, in every supported version, decoding yields exactly the values on the wire in order, null-versus-empty distinctions included where the result type has them, and does not panic.",
 ["inputs","configurations"],"all well-formed responses: any array lengths, any values, null and empty variants, each supported version",
 "Decoder tests replay one captured response each, usually without errors or optional fields.",
 ["create_topics_response.go","delete_topics_response.go","create_partitions_response.go","delete_groups_response.go","alter_config_response.go","incremental_alter_config_response.go","describe_configs_response.go","alter_partition_reassignments_response.go","list_partition_reassignments_response.go","elect_leaders_response.go","describe_logdirs_response.go","create_acls_response.go","delete_acls_response.go","desscribe_acls_response.go"],
 [("New...Response / Decode... functions","*_response.go")])
p("C06","Broker error codes are never swallowed and never invented",
 "A decoded response reports an error exactly when it carries a non-zero error code in one of the places its kind has for them (top level, topic, partition, resource, group, filter, matching entry), and the error reported identifies a code that is really in the response. Reporting an error never panics, also when the broker sent no message text, and a code reported for one request is mapped to the name, retriability and number of that same code.",
 ["inputs"],"all response values of every kind: any number of entries, any position of the failing entry, any code, with and without message text",
 "Tests check at most one failing entry per response, in the first position.",
 ["errorcode.go","error.go","response.go","*_response.go"],
 [("Error methods and error mapping","*_response.go, errorcode.go")])
p("C07","Record batches sent to brokers are well formed and complete",
 "For any list of records and any batch attributes, the encoded record batch is the version-2 layout a broker accepts: batch length, record count, CRC-32C over the attributes-to-end bytes, and every record with its own exact length, in order, with key, value and headers byte for byte and a null key or value distinguished from an empty one. With a compression codec selected, the records section is exactly that codec applied to the uncompressed records section and the attribute bits name that codec.",
 ["inputs","configurations"],"all record lists, key/value/header contents and lengths (varint width boundaries included), all codecs",
 "Tests encode a single small batch; lengths cross varint width boundaries and header/null combinations only for other inputs.",
 ["record.go","message_encode.go","produce_request.go","compress_type.go","gzip_compressor.go","lz4_compressor.go","simple_producer.go"],
 [("Record.Encode / RecordBatch.Encode","record.go"),("codec choice","compress_type.go, simple_producer.go")])
p("C08","Fetched records are delivered exactly as stored, from the requested offset on",
 "For any well-formed fetch response, however the network splits it into reads, the consumer side emits exactly the records whose offset is at or above the requested start offset, each once, in order, with its own topic, partition, offset, timestamp, key, value and headers; records below the start offset are skipped. A partition-level error code is emitted as an error and no record of that partition is invented; whatever happens, the whole frame is consumed so the next response starts on a frame boundary.",
 ["inputs","schedules"],"all fetch responses (any number of topics, partitions, batches, records), any start offset, any split into reads",
 "Tests feed one captured response through an in-memory reader that never returns short reads.",
 ["fetch_response.go","record.go","message.go"],
 [("stream decoding","fetch_response.go"),("record decoding","record.go"),("start-offset filter","fetch_response.go")])
p("C09","A consumer neither skips nor repeats records, and commits what it delivered",
 "While consuming a partition, every fetch asks for the offset just after the last record handed to the user (or for the starting offset if none), whatever errors, retries or reconnects happen in between; only an offset-out-of-range answer makes it jump, and then to the broker-reported earliest or latest offset according to its configuration. An offset commit always carries the position reached at that moment for that topic, partition, group, member and generation, is skipped only when that position is already committed or cannot be committed, and is recorded as committed only if the broker accepted it. A consumer of topics consumes exactly the partitions assigned to it, and every partition of a topic it was subscribed or assigned to without a list, each once, from the configured end of the log, into the channel it returns. Stopping a consumer returns only after its fetch loop was told to end and has ended. Closing a consumer of topics stops every one of its consumers and closes their connections only after they have ended.",
 ["histories","fault_sequences"],"all sequences of delivered records, errors, retries and commit attempts",
 "Tests mock a single fetch cycle; positions after error sequences are not explored.",
 ["simple_consumer.go","consumer.go","group_consumer.go","offset_commit_request.go","fetch_request.go"],
 [("position update","simple_consumer.go consumeMessages/consumeLoop"),("partitions consumed","consumer.go Consume/Subscribe/Assign"),("commit","simple_consumer.go CommitOffset/commitOffset, group_consumer.go commitOffset")],
 state=[("position","next offset to fetch","simple_consumer.go"),("committed position","last offset the broker acknowledged","simple_consumer.go")])
p("C10","Group assignment gives every partition to exactly one subscribed member, evenly",
 "When this client leads a group, the assignment it computes gives each partition of each topic to exactly one member among those subscribed to that topic, and to nobody else; every member of the group gets an entry, each topic's partitions go out as contiguous ranges in member order and no two subscribers of a topic differ by more than one partition. The result does not depend on the order in which members or partitions are listed, and a topic nobody subscribes to is assigned to nobody.",
 ["inputs"],"all sets of members, subscriptions, topics and partition ids, in any order",
 "Tests check two or three member/partition counts.",
 ["assign.go","group.go","group_consumer.go"],
 [("range assignment","assign.go")])
p("C11","The version used for a request is the best one both sides support",
 "For every API and every version table a broker advertises, the version chosen is the highest version the client implements that lies within the broker's advertised range for that same API, and 0 when the client or broker lists none. The version chosen is the one put in the request, the one used to encode its body and the one used to decode its response.",
 ["inputs","configurations"],"all advertised tables (any order, ranges, duplicates absent), all APIs",
 "Tests use one advertised table.",
 ["broker.go","request.go","response.go"],
 [("version choice","broker.go getHighestAvailableAPIVersion"),("client version table and flexible-header tables","request.go")])
p("C12","Every accepted message is sent once, in order, and closed producers refuse",
 "Every message a producer accepts is put into exactly one outgoing batch for its partition, in acceptance order (messages with a key and messages without one are ordered separately), with the key and value bytes it had when it was accepted; a flush, a full buffer or a close sends all buffered messages and leaves the buffer empty. After close every further message is refused with the closed-producer error instead of being silently dropped, and messages with the same key always go to the partition given by the hash of the key over the number of partitions.",
 ["histories","inputs"],"all sequences of add, flush and close, all keys and values, all buffer limits",
 "Tests add a handful of messages against a mocked broker and do not look at batch contents.",
 ["simple_producer.go","producer.go","produce_request.go"],
 [("buffering and flush","simple_producer.go"),("partition choice","producer.go getSimpleProducer")],
 state=[("buffer","accepted but unsent records","simple_producer.go")])
p("C13","A response is matched to its own request on a connection that stays in step",
 "One request and its response at a time use a broker connection: the whole request frame is written before the response is read, the response handed to the caller is exactly the frame announced by its length prefix however the network splits it, decoded as the kind and version that was asked for, and a frame that cannot be completed is reported as an error. Every request on a connection carries a fresh correlation id. After a timeout, end of stream or broken pipe the connection is closed and the next request opens a new one and authenticates again before it is sent. A connection is used for requests only after the broker's API versions were read and, when a SASL mechanism is configured, authentication with the configured mechanism, user and password succeeded; a failed step, or a mechanism the client does not implement, is reported as an error and the connection is closed.",
 ["schedules","fault_sequences"],"all ways the network splits or truncates a response, all error outcomes, all interleavings of callers",
 "Tests use a mock connection that returns each frame in one read.",
 ["broker.go","response.go"],
 [("request/response exchange under the connection lock","broker.go RequestAndGet/Request/requestStreamingly"),("frame reading and dispatch","response.go ReadAndParse")],
 state=[("connection","nil when closed","broker.go"),("correlation counter","last id used","broker.go")])
p("C14","Requests reach the broker responsible for them",
 "Partition-specific requests are sent to the broker that current metadata names as leader of that partition, group requests to the group's coordinator, questions about a replica's log directories to the broker that holds it and cluster-administration requests to the controller; a question to all brokers reaches every broker known; a broker obtained for a node id is connected to the address metadata gives for that id. A connection opened only to learn about the cluster is closed again, and closing a client closes every connection it keeps. When no responsible broker is known an error is returned instead of sending the request elsewhere or panicking.",
 ["inputs","histories"],"all metadata answers: any leaders, missing partitions, error codes, unknown node ids",
 "Tests cover a single-broker layout.",
 ["brokers.go","client.go","simple_producer.go","simple_consumer.go","producer.go","metadata_response.go"],
 [("leader lookup","brokers.go findLeader/RequestOffsets, producer.go getLeaderID"),("node id to address","brokers.go GetBroker/NewBroker, metadata_response.go")])
p("C15","Group membership follows the coordinator's answers",
 "A group member always syncs, heartbeats, commits and leaves with the member id and generation of its latest successful join, and it computes an assignment only when the coordinator named it leader of that join. Losing its identity (unknown member) resets the member id before the next join, a coordinator that moved or became unavailable is looked up again, and after a successful sync it consumes exactly the partitions in its assignment, one consumer each. A member that is closed stops its consumers before it leaves, and closes its connections after that.",
 ["histories","fault_sequences"],"all sequences of join, sync, heartbeat and leave outcomes",
 "Tests mock one successful join.",
 ["group_consumer.go","group.go","assign.go"],
 [("join/sync/rejoin","group_consumer.go join/sync/joinAndSync/parseGroupAssignments/heartbeat/leave")],
 state=[("member id, generation","identity in the group","group_consumer.go")])
p("C16","Primitive wire encodings are lossless and self-delimiting",
 "Every primitive the client writes (fixed and compact strings, byte strings, their nullable forms, array lengths, tagged fields) has the documented byte layout and is read back as the same value, null kept distinct from empty, and the reader reports having consumed exactly the bytes that were written whatever follows them. Neither direction panics for any value the protocol can represent.",
 ["inputs"],"all values, including null, empty and lengths at varint width boundaries, followed by any bytes",
 "Tests check short ASCII values and do not check null, empty and long values in every form.",
 ["primitive_type_encode.go","primitive_types_decode.go","tagged_fields.go"],
 [("encode/decode primitives","primitive_type_encode.go, primitive_types_decode.go, tagged_fields.go")])
p("C17","Settings denote what they name and are used as given",
 "Every ACL resource type, pattern type, operation and permission printed by the client parses back to the code it came from, whatever the letter case, names and numbers not listed are rejected, and each name denotes the Kafka code of that name. Compression names select the codec of that name, and invalid producer or consumer configurations are rejected before anything is sent. Every other setting is kept as given (or is the default one), independently of other producers and consumers, and the connections of a producer or consumer are made with its own servers, timeouts, TLS and SASL settings: TLS exactly when it is enabled, verified as configured, never in the clear when the TLS settings are incomplete, and a join is given longer than the session timeout and a fetch longer than its wait.",
 ["inputs","configurations"],"all codes, all texts, all configurations",
 "No test enumerates the codes or the rejected texts, combines settings or makes TLS connections.",
 ["acl_types.go","config.go","compress_type.go","simple_producer.go","broker.go","consumer.go","group_consumer.go","simple_consumer.go","producer.go"],
 [("text conversions","acl_types.go"),("configuration checks","config.go"),("connection settings","config.go getBrokerConfigFrom*, createConsumerConfig; broker.go newConn, createTLSConfig; the constructors"),("codec names","compress_type.go")])
p("C18","Group rebalancing reacts to metadata changes that affect the assignment",
 "Two topic-metadata snapshots are considered the same exactly when they list the same topics in the same order with the same topic errors and, for each, the same partitions with the same leader and error; any other difference in those makes the group leader trigger a rebalance, and identical snapshots never do.",
 ["inputs"],"all pairs of metadata snapshots",
 "Tests compare a few snapshots.",
 ["group_consumer.go"],
 [("snapshot comparison","group_consumer.go ifTopicMetadatasSame")])
p("C19","Closing a consumer or group always terminates and stops delivery",
 "Closing a consumer or a group consumer returns within its timeout, after which no further record is delivered and no background activity of that consumer continues to use its connections.",
 ["schedules"],"all interleavings of close with fetching, heartbeating and rebalancing",
 "Tests do not explore interleavings.",
 ["simple_consumer.go","group_consumer.go","consumer.go"],
 [("stop/close","simple_consumer.go Stop, group_consumer.go AwaitClose, consumer.go AwaitClose")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))

From 3b01c72d9530b1fe3b594da85456e83580861ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:33 +0000
Subject: [PATCH 01/82] fix: size the fetch request buffer by the number of
 partitions of each topic

---
 fetch_request.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fetch_request.go b/fetch_request.go
index 3855996..2f88ac8 100644
--- a/fetch_request.go
+++ b/fetch_request.go
@@ -67,8 +67,8 @@ func (fetchRequest *FetchRequest) addPartition(topic string, partitionID int32,
 func (fetchRequest *FetchRequest) length(version uint16) int {
 	length := 4 + fetchRequest.RequestHeader.length()
 	length += 25 + 4 + 4
-	for topicname := range fetchRequest.Topics {
-		length += 2 + len(topicname) + 28
+	for topicname, partitionBlocks := range fetchRequest.Topics {
+		length += 2 + len(topicname) + 4 + 28*len(partitionBlocks)
 	}
 	for topicname, partitionIDs := range fetchRequest.ForgottenTopicsDatas {
 		length += 2 + len(topicname) + 4 + len(partitionIDs)*4
-- 
2.43.0


From 605b8092b949d356ea57f51dadcc015b0addafe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:33 +0000
Subject: [PATCH 02/82] fix: encode missing assignments as null in
 CreatePartitions v0

---
 create_partitions_request.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/create_partitions_request.go b/create_partitions_request.go
index 2a522c0..56e1a2e 100644
--- a/create_partitions_request.go
+++ b/create_partitions_request.go
@@ -84,7 +84,11 @@ func (r *createPartitionsRequestTopicBlock) encode(payload []byte, version uint1
 			offset += binary.PutUvarint(payload[offset:], 1+uint64(len(r.Assignments)))
 		}
 	case 0:
-		binary.BigEndian.PutUint32(payload[offset:], uint32(len(r.Assignments)))
+		if r.Assignments == nil {
+			binary.BigEndian.PutUint32(payload[offset:], 0xffffffff)
+		} else {
+			binary.BigEndian.PutUint32(payload[offset:], uint32(len(r.Assignments)))
+		}
 		offset += 4
 	}
 	for _, assignment := range r.Assignments {
-- 
2.43.0


From ed62457885385ec04a9a7ac7c5b8fd6196425e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:33 +0000
Subject: [PATCH 03/82] fix: reserve room for tagged fields and varints in the
 CreatePartitions request buffer

---
 create_partitions_request.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/create_partitions_request.go b/create_partitions_request.go
index 56e1a2e..a14272f 100644
--- a/create_partitions_request.go
+++ b/create_partitions_request.go
@@ -104,22 +104,21 @@ func (r *createPartitionsRequestTopicBlock) encode(payload []byte, version uint1
 
 func (r *CreatePartitionsRequest) length(version uint16) (length int) {
 	length = r.RequestHeader.length()
-	length += 4
+	length += binary.MaxVarintLen32
 	for _, topic := range r.Topics {
-		length += 2 + len(topic.Name)                  // name
-		length += 4                                    // count
-		length += 4                                    // assignments length
-		for _, assignment := range topic.Assignments { // assignments
-			length += 4
+		length += binary.MaxVarintLen32 + len(topic.Name) // name
+		length += 4                                       // count
+		length += binary.MaxVarintLen32                   // assignments length
+		for _, assignment := range topic.Assignments {    // assignments
+			length += binary.MaxVarintLen32
 			length += 4 * len(assignment.BrokerIDs)
-			length++ // TAG_BUFFER
+			length += assignment.TaggedFields.length()
 		}
+		length += topic.TaggedFields.length()
 	}
 	length += 4 // timeout_ms
 	length++    // validate_only
-	if version == 2 {
-		length += 4 // TAG_BUFFER
-	}
+	length += r.TaggedFields.length()
 	return
 }
 
-- 
2.43.0


From 1ceae26fc944b9880329a4e9c9032ae71aa296a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:33 +0000
Subject: [PATCH 04/82] fix: reserve room for tagged fields and varints in the
 ListPartitionReassignments request buffer

---
 list_partition_reassignments_request.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/list_partition_reassignments_request.go b/list_partition_reassignments_request.go
index e4edaba..addd716 100644
--- a/list_partition_reassignments_request.go
+++ b/list_partition_reassignments_request.go
@@ -57,17 +57,17 @@ func (r *ListPartitionReassignmentsRequest) AddTP(topicName string, pid int32) {
 
 func (r ListPartitionReassignmentsRequest) length() int {
 	requestLength := r.RequestHeader.length()
-	requestLength += 4 // TimeoutMS
-	requestLength += 4 // len(Topics)
+	requestLength += 4                     // TimeoutMS
+	requestLength += binary.MaxVarintLen32 // len(Topics)
 	for _, topic := range r.Topics {
-		requestLength += 2 + len(topic.Name) // len(TopicName)
-		requestLength += 4                   // len(Partitions)
+		requestLength += binary.MaxVarintLen32 + len(topic.Name) // len(TopicName)
+		requestLength += binary.MaxVarintLen32                   // len(Partitions)
 		for range topic.Partitions {
 			requestLength += 4 // PartitionID
 		}
-		requestLength++ // TaggedFields
+		requestLength += topic.TaggedFields.length()
 	}
-	requestLength++ // TaggedFields
+	requestLength += r.TaggedFields.length()
 	return requestLength
 }
 
-- 
2.43.0


From c95fd6aa1be97e2b9b733cdf78f0fc703dd04dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:15 +0000
Subject: [PATCH 05/82] fix: write CreateAcls tagged fields in flexible
 versions only

---
 create_acls_request.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/create_acls_request.go b/create_acls_request.go
index 180bef2..621b84c 100644
--- a/create_acls_request.go
+++ b/create_acls_request.go
@@ -60,7 +60,9 @@ func (a *AclCreation) encodeTo(payload []byte, version uint16, headerVersion uin
 	offset++
 	payload[offset] = uint8(a.PermissionType)
 	offset++
-	offset += copy(payload[offset:], a.TaggedFields.Encode())
+	if headerVersion >= 2 {
+		offset += copy(payload[offset:], a.TaggedFields.Encode())
+	}
 
 	return
 }
@@ -103,7 +105,9 @@ func (r *CreateAclsRequest) Encode(version uint16) (payload []byte) {
 	}
 
 	// Write the tag buffer
-	offset += copy(payload[offset:], r.TaggedFields.Encode())
+	if headerVersion >= 2 {
+		offset += copy(payload[offset:], r.TaggedFields.Encode())
+	}
 
 	return payload
 }
@@ -173,15 +177,19 @@ func DecodeCreateAclsRequest(payload []byte) (r CreateAclsRequest, err error) {
 		creation.PermissionType = AclsPermissionType(payload[offset])
 		offset++
 
-		creation.TaggedFields, o = DecodeTaggedFields(payload[offset:])
-		offset += o
+		if headerVersion >= 2 {
+			creation.TaggedFields, o = DecodeTaggedFields(payload[offset:])
+			offset += o
+		}
 
 		r.Creations[i] = *creation
 	}
 
 	// Decode TaggedFields
-	r.TaggedFields, o = DecodeTaggedFields(payload[offset:])
-	offset += o
+	if headerVersion >= 2 {
+		r.TaggedFields, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
 
 	return r, nil
 }
-- 
2.43.0


From e5f1429a9a7c45e8bed710c1e37d15c42a62453b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:15 +0000
Subject: [PATCH 06/82] fix: write DescribeAcls tagged fields in flexible
 versions only

---
 describe_acls_request.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/describe_acls_request.go b/describe_acls_request.go
index 2fa0509..b77b6c5 100644
--- a/describe_acls_request.go
+++ b/describe_acls_request.go
@@ -58,7 +58,9 @@ func (r *DescribeAclsRequest) Encode(version uint16) (rst []byte) {
 
 	binary.Write(buf, binary.BigEndian, r.PermissionType)
 
-	buf.Write(r.DescribeAclsRequestBody.TaggedFields.Encode())
+	if version >= 2 {
+		buf.Write(r.DescribeAclsRequestBody.TaggedFields.Encode())
+	}
 
 	return buf.Bytes()
 }
-- 
2.43.0


From 3ca6474a55ff9a7fd85fa601c50c01ed8353741d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:15 +0000
Subject: [PATCH 07/82] fix: reserve room for the permission type and tagged
 fields of a DeleteAcls request

---
 delete_acls_request.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/delete_acls_request.go b/delete_acls_request.go
index f4e8213..2df6445 100644
--- a/delete_acls_request.go
+++ b/delete_acls_request.go
@@ -32,6 +32,7 @@ func (f *DeleteAclsFilter) length() (n int) {
 		n += len(*f.Host)
 	}
 	n += 1 // operation
+	n += 1 // permission type
 
 	n += f.TaggedFields.length()
 	return
@@ -97,6 +98,7 @@ func (r *DeleteAclsRequest) length() (n int) {
 	for _, filter := range r.Filters {
 		n += filter.length()
 	}
+	n += r.TaggedFields.length()
 	return n
 }
 
-- 
2.43.0


From 8fa69d5b279c5ecace37923946effd606ef8e707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:15 +0000
Subject: [PATCH 08/82] fix: write the transactional id of a produce request
 from version 3 on only

---
 produce_request.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/produce_request.go b/produce_request.go
index 8b8f9bb..65aa5c6 100644
--- a/produce_request.go
+++ b/produce_request.go
@@ -119,7 +119,7 @@ func (r *ProduceRequest) Encode(version uint16) (payload []byte) {
 		return nil
 	}
 
-	if r.APIVersion >= tags["StatesFilter"] {
+	if r.APIVersion >= tags["transactionalID"] {
 		if isFlexible {
 			_, err = writeCompactNullableString(buf, r.transactionalID)
 		} else {
@@ -169,7 +169,7 @@ func (r *ProduceRequest) Decode(data []byte, version uint16) error {
 	isFlexible := r.IsFlexible()
 
 	// Decode transactionalID if applicable
-	if r.APIVersion >= r.tags()["StatesFilter"] {
+	if r.APIVersion >= r.tags()["transactionalID"] {
 		if isFlexible {
 			r.transactionalID, o = compactNullableString(data[offset:])
 		} else {
-- 
2.43.0


From 5cb34b270431534a793a78c2f855e75200fe3cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:33 +0000
Subject: [PATCH 09/82] fix: recompute the header version when a request is
 sent again with another version

---
 request.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/request.go b/request.go
index 7a94b44..7c0f52f 100644
--- a/request.go
+++ b/request.go
@@ -188,6 +188,9 @@ func (requestHeader *RequestHeader) SetVersion(version uint16) {
 	// if requestHeader.APIVersion == -1 {
 	// 	return
 	// }
+	if requestHeader.APIVersion != version {
+		requestHeader.hv = nil // it depends on the api version
+	}
 	requestHeader.APIVersion = version
 }
 
-- 
2.43.0


From fa29f599cd5327acaed8bc9a6c73978fd87e3cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:35 +0000
Subject: [PATCH 10/82] fix: write the length of nullable bytes

---
 primitive_type_encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primitive_type_encode.go b/primitive_type_encode.go
index 4361c3b..d70709b 100644
--- a/primitive_type_encode.go
+++ b/primitive_type_encode.go
@@ -116,7 +116,7 @@ func encodeNullableBytes(s []byte) []byte {
 		return binary.BigEndian.AppendUint32(nil, 0xFFFFFFFF)
 	}
 	payload := make([]byte, len(s)+4)
-	binary.BigEndian.AppendUint32(payload, uint32(len(s)))
+	binary.BigEndian.PutUint32(payload, uint32(len(s)))
 	offset := copy(payload[4:], s)
 	return payload[:4+offset]
 }
-- 
2.43.0


From 4532b41be1860c49daf3306a8bfef1743ceb1581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:57 +0000
Subject: [PATCH 11/82] fix: reserve room for long compact strings in the
 ListGroups request buffer

---
 list_groups_request.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/list_groups_request.go b/list_groups_request.go
index 84a4481..04b8205 100644
--- a/list_groups_request.go
+++ b/list_groups_request.go
@@ -41,12 +41,12 @@ func (r *ListGroupsRequest) length() (n int) {
 
 	n += 4
 	for _, v := range r.StatesFilter {
-		n += 2 + len(v)
+		n += binary.MaxVarintLen32 + len(v)
 	}
 
 	n += 4
 	for _, v := range r.TypesFilter {
-		n += 2 + len(v)
+		n += binary.MaxVarintLen32 + len(v)
 	}
 
 	n += r.TaggedFields.length()
-- 
2.43.0


From 071630887de90882c96253fef4c8b5fa4df4429c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:30 +0000
Subject: [PATCH 12/82] fix: read null and empty compact nullable bytes as null
 and empty

---
 primitive_types_decode.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/primitive_types_decode.go b/primitive_types_decode.go
index b712328..bf01742 100644
--- a/primitive_types_decode.go
+++ b/primitive_types_decode.go
@@ -81,11 +81,10 @@ func nullableBytes(payload []byte) (r []byte, offset int) {
 // Then N bytes follow. A null object is represented with a length of 0.
 func compactNullableBytes(payload []byte) (r []byte, offset int) {
 	length, o := binary.Uvarint(payload)
-	length--
-
 	if length == 0 {
 		return nil, o
 	}
+	length--
 	r = payload[o : o+int(length)]
 	return r, o + int(length)
 }
-- 
2.43.0


From 5ff665eb31eefc3ef64d8a87eb3fdaf2e49e5278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:47 +0000
Subject: [PATCH 13/82] fix: decode every partition, the throttle time and the
 tagged fields of a produce response

---
 produce_response.go | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/produce_response.go b/produce_response.go
index 4d79488..d48e1a7 100644
--- a/produce_response.go
+++ b/produce_response.go
@@ -50,7 +50,7 @@ func (p *produceResponseP) decode(payload []byte, version uint16, isFlexible boo
 	offset += 8
 
 	tags := p.tags()
-	if version >= tags["GroupState"] {
+	if version >= tags["LogAppendTimeMs"] {
 		p.LogAppendTimeMs = int64(binary.BigEndian.Uint64(payload[offset:]))
 		offset += 8
 	}
@@ -84,8 +84,10 @@ func (p *produceResponseP) decode(payload []byte, version uint16, isFlexible boo
 				offset += o
 			}
 
-			r.TaggedField, o = DecodeTaggedFields(payload[offset:])
-			offset += o
+			if isFlexible {
+				r.TaggedField, o = DecodeTaggedFields(payload[offset:])
+				offset += o
+			}
 		}
 	}
 
@@ -98,6 +100,11 @@ func (p *produceResponseP) decode(payload []byte, version uint16, isFlexible boo
 		offset += o
 	}
 
+	if isFlexible {
+		p.TaggedField, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
+
 	return
 }
 
@@ -126,11 +133,13 @@ func (t *produceResponseT) decode(payload []byte, version uint16, isFlexible boo
 	}
 	for j := range t.Partitions {
 		p := &t.Partitions[j]
-		p.decode(payload[offset:], version, isFlexible)
+		offset += p.decode(payload[offset:], version, isFlexible)
 	}
 
-	t.TaggedField, o = DecodeTaggedFields(payload[offset:])
-	offset += o
+	if isFlexible {
+		t.TaggedField, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
 
 	return
 }
@@ -165,7 +174,7 @@ func NewProduceResponse(payload []byte, version uint16) (r ProduceResponse, err
 	}
 	offset += 4
 
-	r.ResponseHeader, o = DecodeResponseHeader(payload[offset:], API_DeleteAcls, version)
+	r.ResponseHeader, o = DecodeResponseHeader(payload[offset:], API_ProduceRequest, version)
 	offset += o
 
 	isFlexible := r.ResponseHeader.IsFlexible()
@@ -184,5 +193,14 @@ func NewProduceResponse(payload []byte, version uint16) (r ProduceResponse, err
 		offset += r.ProduceResponses[i].decode(payload[offset:], version, isFlexible)
 	}
 
+	if version >= 1 {
+		r.ThrottleTimeMs = int32(binary.BigEndian.Uint32(payload[offset:]))
+		offset += 4
+	}
+	if isFlexible {
+		r.TaggedField, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
+
 	return r, err
 }
-- 
2.43.0


From f748c011ec77404eb4aeff8a9574b0e8236c5d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:51 +0000
Subject: [PATCH 14/82] fix: read the cluster id of a metadata response after
 its length, and accept null

---
 metadata_response.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metadata_response.go b/metadata_response.go
index 46b7e8a..8d1c6b6 100644
--- a/metadata_response.go
+++ b/metadata_response.go
@@ -176,9 +176,12 @@ func NewMetadataResponse(payload []byte, version uint16) (r MetadataResponse, er
 	}
 
 	if version >= 4 {
-		l := int(binary.BigEndian.Uint16(payload[offset:]))
-		r.ClusterID = string(payload[offset : offset+l])
-		offset += 2 + l
+		l := int(int16(binary.BigEndian.Uint16(payload[offset:])))
+		offset += 2
+		if l > 0 {
+			r.ClusterID = string(payload[offset : offset+l])
+			offset += l
+		}
 	}
 	// ControllerID
 	r.ControllerID = int32(binary.BigEndian.Uint32(payload[offset:]))
-- 
2.43.0


From 7be85cf86cdcf1dec2d376a66f31bdaf9fddae23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:56 +0000
Subject: [PATCH 15/82] fix: an offsets response carries a throttle time from
 version 2 on only

---
 offset_response.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/offset_response.go b/offset_response.go
index bf92db7..0c5bc39 100644
--- a/offset_response.go
+++ b/offset_response.go
@@ -52,8 +52,9 @@ func NewOffsetsResponse(payload []byte, version uint16) (r OffsetsResponse, err
 	r.CorrelationID = uint32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 
-	if version > 0 {
+	if version >= 2 {
 		r.ThrottleTimeMs = int32(binary.BigEndian.Uint32(payload[offset:]))
+		offset += 4
 	}
 
 	topicLenght := int(binary.BigEndian.Uint32(payload[offset:]))
-- 
2.43.0


From 5eaf133d8566bbd8cc80c740acd6c95a2f89fd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:00 +0000
Subject: [PATCH 16/82] fix: read the error code of a sasl handshake response

---
 sasl_handshake_response.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sasl_handshake_response.go b/sasl_handshake_response.go
index ad222f8..97a3f2d 100644
--- a/sasl_handshake_response.go
+++ b/sasl_handshake_response.go
@@ -32,7 +32,7 @@ func NewSaslHandshakeResponse(payload []byte) (r SaslHandshakeResponse, err erro
 	r.CorrelationID = uint32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 
-	r.ErrorCode = int16(uint16(binary.BigEndian.Uint32(payload[offset:])))
+	r.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
 	if r.ErrorCode != 0 {
 		err = KafkaError(r.ErrorCode)
-- 
2.43.0


From eeb253bc4997422267e4d33270dc8963d63acc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:04 +0000
Subject: [PATCH 17/82] fix: accept null metadata in an offset fetch response

---
 offset_fetch_response.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/offset_fetch_response.go b/offset_fetch_response.go
index ba09b09..20eef97 100644
--- a/offset_fetch_response.go
+++ b/offset_fetch_response.go
@@ -72,10 +72,12 @@ func NewOffsetFetchResponse(payload []byte) (r OffsetFetchResponse, err error) {
 			offset += 4
 			p.Offset = int64(binary.BigEndian.Uint64(payload[offset:]))
 			offset += 8
-			l = int(binary.BigEndian.Uint16(payload[offset:]))
+			l = int(int16(binary.BigEndian.Uint16(payload[offset:])))
 			offset += 2
-			p.Metadata = string(payload[offset : offset+l])
-			offset += l
+			if l > 0 {
+				p.Metadata = string(payload[offset : offset+l])
+				offset += l
+			}
 			p.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 			offset += 2
 
-- 
2.43.0


From c467462db9880fd1190199be18c90f2db2f7b2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:08 +0000
Subject: [PATCH 18/82] fix: keep member metadata and group errors of a
 describe groups response

---
 describe_groups_response.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/describe_groups_response.go b/describe_groups_response.go
index 3398e07..5a12687 100644
--- a/describe_groups_response.go
+++ b/describe_groups_response.go
@@ -109,6 +109,7 @@ func NewDescribeGroupsResponse(payload []byte) (r DescribeGroupsResponse, err er
 
 			l = int(binary.BigEndian.Uint32(payload[offset:]))
 			offset += 4
+			group.Members[i].MemberMetadata = make([]byte, l)
 			copy(group.Members[i].MemberMetadata, payload[offset:offset+l])
 			offset += l
 
@@ -116,7 +117,13 @@ func NewDescribeGroupsResponse(payload []byte) (r DescribeGroupsResponse, err er
 			offset += 4
 			group.Members[i].RawMemberAssignment = make([]byte, l)
 			copy(group.Members[i].RawMemberAssignment, payload[offset:offset+l])
-			group.Members[i].MemberAssignment, err = NewMemberAssignment(group.Members[i].RawMemberAssignment)
+			if l > 0 { // a member has no assignment while the group is rebalancing
+				var e error
+				group.Members[i].MemberAssignment, e = NewMemberAssignment(group.Members[i].RawMemberAssignment)
+				if err == nil {
+					err = e
+				}
+			}
 			offset += l
 		}
 
-- 
2.43.0


From 44fed9ba34ef56b766c11dd912732405308979a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:12 +0000
Subject: [PATCH 19/82] fix: write the length of the user data of a member
 assignment

---
 group.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/group.go b/group.go
index 87debf1..502b760 100644
--- a/group.go
+++ b/group.go
@@ -49,6 +49,8 @@ func (memberAssignment *MemberAssignment) Encode() []byte {
 			offset += 4
 		}
 	}
+	binary.BigEndian.PutUint32(payload[offset:], uint32(len(memberAssignment.UserData)))
+	offset += 4
 	copy(payload[offset:], memberAssignment.UserData)
 
 	return payload
-- 
2.43.0


From d8eb772173db70a0b2667c8b04133517fd5ff9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:16 +0000
Subject: [PATCH 20/82] fix: report the error code of a list groups response

---
 list_groups_response.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/list_groups_response.go b/list_groups_response.go
index 000ad86..5c03adb 100644
--- a/list_groups_response.go
+++ b/list_groups_response.go
@@ -25,7 +25,7 @@ type ListGroupsResponse struct {
 }
 
 func (r *ListGroupsResponse) Error() error {
-	return nil
+	return getErrorFromErrorCode(int16(r.ErrorCode))
 }
 
 func (g *Group) tags() (fieldsVersions map[string]uint16) {
-- 
2.43.0


From 37aa62c75620ea1e0285c12fb5d350a42a30e61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:33 +0000
Subject: [PATCH 21/82] fix: read the throttle time of a create acls response

---
 create_acls_response.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/create_acls_response.go b/create_acls_response.go
index e7752fb..b78e402 100644
--- a/create_acls_response.go
+++ b/create_acls_response.go
@@ -7,8 +7,9 @@ import (
 
 type CreateAclsResponse struct {
 	ResponseHeader
-	Results      []AclCreationResult
-	TaggedFields TaggedFields
+	ThrottleTimeMs int32
+	Results        []AclCreationResult
+	TaggedFields   TaggedFields
 }
 
 type AclCreationResult struct {
@@ -42,6 +43,9 @@ func DecodeCreateAclsResponse(payload []byte, version uint16) (*CreateAclsRespon
 	r.ResponseHeader, o = DecodeResponseHeader(payload[offset:], API_CreateAcls, version)
 	offset += o
 
+	r.ThrottleTimeMs = int32(binary.BigEndian.Uint32(payload[offset:]))
+	offset += 4
+
 	var resultCount int32
 	if r.ResponseHeader.IsFlexible() {
 		resultCount, o = compactArrayLength(payload[offset:])
@@ -84,15 +88,19 @@ func DecodeCreateAclsResponse(payload []byte, version uint16) (*CreateAclsRespon
 }
 
 func (r *CreateAclsResponse) length() (n int) {
+	n = 4 // length
 	n += r.ResponseHeader.length()
-	n += 4 // results count
+	n += 4                     // throttle time
+	n += binary.MaxVarintLen32 // results count
 	for _, result := range r.Results {
 		n += 2 // error code
-		n += 2
+		n += binary.MaxVarintLen32
 		if result.ErrorMessage != nil {
-			n += len(*result.ErrorMessage) + 2
+			n += len(*result.ErrorMessage)
 		}
+		n += result.TaggedFields.length()
 	}
+	n += r.TaggedFields.length()
 	return n
 }
 
@@ -109,6 +117,10 @@ func (r *CreateAclsResponse) Encode() (payload []byte) {
 	}()
 
 	offset += r.ResponseHeader.EncodeTo(payload[offset:])
+
+	binary.BigEndian.PutUint32(payload[offset:], uint32(r.ThrottleTimeMs))
+	offset += 4
+
 	if r.ResponseHeader.IsFlexible() {
 		offset += copy(payload[offset:], encodeCompactArrayLength(len(r.Results)))
 	} else {
@@ -127,7 +139,7 @@ func (r *CreateAclsResponse) Encode() (payload []byte) {
 		}
 
 		if r.ResponseHeader.IsFlexible() {
-			offset += r.TaggedFields.EncodeTo(payload[offset:])
+			offset += result.TaggedFields.EncodeTo(payload[offset:])
 		}
 	}
 
-- 
2.43.0


From dedfd76c054d89264659ba167c69f26e2280ac49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:38 +0000
Subject: [PATCH 22/82] fix: a describe acls response header has tagged fields
 from version 2 on only

---
 desscribe_acls_response.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/desscribe_acls_response.go b/desscribe_acls_response.go
index e8a9c3d..76acf7e 100644
--- a/desscribe_acls_response.go
+++ b/desscribe_acls_response.go
@@ -48,7 +48,7 @@ func NewDescribeAclsResponse(payload []byte, version uint16) (response DescribeA
 	response.CorrelationID = binary.BigEndian.Uint32(payload[offset:])
 	offset += 4
 
-	if version >= 1 {
+	if version >= 2 {
 		_, o = DecodeTaggedFields(payload[offset:])
 		offset += o
 	}
@@ -181,7 +181,7 @@ func (r *DescribeAclsResponse) Encode(version uint16) (rst []byte, err error) {
 	binary.Write(buf, binary.BigEndian, uint32(0))
 
 	binary.Write(buf, binary.BigEndian, r.CorrelationID)
-	if version >= 1 {
+	if version >= 2 {
 		buf.Write(r.TaggedFields.Encode())
 	}
 	binary.Write(buf, binary.BigEndian, r.ThrottleTimeMs)
-- 
2.43.0


From 4998a9e742f992288d21fab64d6eecd076fd5daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:42 +0000
Subject: [PATCH 23/82] fix: a delete acls response has tagged fields in
 flexible versions only

---
 delete_acls_response.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/delete_acls_response.go b/delete_acls_response.go
index 3eb39ca..46fbceb 100644
--- a/delete_acls_response.go
+++ b/delete_acls_response.go
@@ -195,12 +195,16 @@ func DecodeDeleteAclsResponse(payload []byte, version uint16) (*DeleteAclsRespon
 			offset += o
 		}
 
-		r.FilterResults[i].TaggedFields, o = DecodeTaggedFields(payload[offset:])
-		offset += o
+		if r.ResponseHeader.IsFlexible() {
+			r.FilterResults[i].TaggedFields, o = DecodeTaggedFields(payload[offset:])
+			offset += o
+		}
 	}
 
-	r.TaggedFields, o = DecodeTaggedFields(payload[offset:])
-	offset += o
+	if r.ResponseHeader.IsFlexible() {
+		r.TaggedFields, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
 
 	return r, nil
 }
@@ -243,9 +247,13 @@ func (r *DeleteAclsResponse) Encode() (payload []byte) {
 			buf.Write(m.encode(r.ResponseHeader.apiVersion, r.ResponseHeader.IsFlexible()))
 		}
 
-		buf.Write(fr.TaggedFields.Encode())
+		if r.ResponseHeader.IsFlexible() {
+			buf.Write(fr.TaggedFields.Encode())
+		}
 	}
 
-	buf.Write(r.TaggedFields.Encode())
+	if r.ResponseHeader.IsFlexible() {
+		buf.Write(r.TaggedFields.Encode())
+	}
 	return buf.Bytes()
 }
-- 
2.43.0


From 7e5f37b5f79f3926af4d33430761bb110d9acb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:46 +0000
Subject: [PATCH 24/82] fix: report an error code that comes without an error
 message

---
 alter_partition_reassignments_response.go | 4 ++--
 create_partitions_response.go             | 2 +-
 delete_acls_response.go                   | 4 ++--
 errorcode.go                              | 8 ++++++++
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/alter_partition_reassignments_response.go b/alter_partition_reassignments_response.go
index 42162fe..7a77dae 100644
--- a/alter_partition_reassignments_response.go
+++ b/alter_partition_reassignments_response.go
@@ -19,12 +19,12 @@ type AlterPartitionReassignmentsResponse struct {
 
 func (r *AlterPartitionReassignmentsResponse) Error() error {
 	if r.ErrorCode != 0 {
-		return fmt.Errorf("%w: %s", KafkaError(r.ErrorCode), *r.ErrorMsg)
+		return fmt.Errorf("%w: %s", KafkaError(r.ErrorCode), stringOrEmpty(r.ErrorMsg))
 	}
 	for _, t := range r.Responses {
 		for _, p := range t.Partitions {
 			if p.ErrorCode != 0 {
-				return fmt.Errorf("%w: %s", KafkaError(p.ErrorCode), *p.ErrorMsg)
+				return fmt.Errorf("%w: %s", KafkaError(p.ErrorCode), stringOrEmpty(p.ErrorMsg))
 			}
 		}
 	}
diff --git a/create_partitions_response.go b/create_partitions_response.go
index 4861514..82c40e1 100644
--- a/create_partitions_response.go
+++ b/create_partitions_response.go
@@ -24,7 +24,7 @@ type createPartitionsResponseResultBlock struct {
 func (r CreatePartitionsResponse) Error() error {
 	for _, result := range r.Results {
 		if result.ErrorCode != 0 {
-			return fmt.Errorf("create partitions error(%d): %s: %w", result.ErrorCode, *result.ErrorMessage, KafkaError(result.ErrorCode))
+			return fmt.Errorf("create partitions error(%d): %s: %w", result.ErrorCode, stringOrEmpty(result.ErrorMessage), KafkaError(result.ErrorCode))
 		}
 	}
 	return nil
diff --git a/delete_acls_response.go b/delete_acls_response.go
index 46fbceb..e71ac05 100644
--- a/delete_acls_response.go
+++ b/delete_acls_response.go
@@ -126,12 +126,12 @@ type DeleteAclsResponse struct {
 func (r *DeleteAclsResponse) Error() (err error) {
 	for i := range r.FilterResults {
 		if r.FilterResults[i].ErrorCode != 0 {
-			return fmt.Errorf("%w: %s", KafkaError(r.FilterResults[i].ErrorCode), *r.FilterResults[i].ErrorMessage)
+			return fmt.Errorf("%w: %s", KafkaError(r.FilterResults[i].ErrorCode), stringOrEmpty(r.FilterResults[i].ErrorMessage))
 		}
 		for j := range r.FilterResults[i].MatchingAcls {
 			if r.FilterResults[i].MatchingAcls[j].ErrorCode != 0 {
 				return fmt.Errorf("%w: %s", KafkaError(r.FilterResults[i].MatchingAcls[j].ErrorCode),
-					*r.FilterResults[i].MatchingAcls[j].ErrorMessage)
+					stringOrEmpty(r.FilterResults[i].MatchingAcls[j].ErrorMessage))
 			}
 		}
 	}
diff --git a/errorcode.go b/errorcode.go
index d17df81..c51946d 100644
--- a/errorcode.go
+++ b/errorcode.go
@@ -42,6 +42,14 @@ func getErrorFromErrorCode(errorcode int16) error {
 	return fmt.Errorf("unknown error code:%d", errorcode)
 }
 
+// stringOrEmpty returns the error message that came with an error code, which may be null
+func stringOrEmpty(s *string) string {
+	if s == nil {
+		return ""
+	}
+	return *s
+}
+
 func init() {
 	AllError[-1] = &Error{
 		ErrorCode: -1,
-- 
2.43.0


From 2f3cb7662f653df3696aeb0825a3cd23556ade12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:51 +0000
Subject: [PATCH 25/82] fix: a create partitions response has tagged fields in
 flexible versions only

---
 create_partitions_response.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/create_partitions_response.go b/create_partitions_response.go
index 82c40e1..389c69a 100644
--- a/create_partitions_response.go
+++ b/create_partitions_response.go
@@ -45,8 +45,8 @@ func NewCreatePartitionsResponse(payload []byte, version uint16) (r CreatePartit
 	r.CorrelationID = binary.BigEndian.Uint32(payload[offset:])
 	offset += 4
 	if version == 2 {
-		// TAG_BUFFER
-		offset++
+		_, o := DecodeTaggedFields(payload[offset:])
+		offset += o
 	}
 
 	r.ThrottleTimeMS = int32(binary.BigEndian.Uint32(payload[offset:]))
@@ -89,11 +89,11 @@ func NewCreatePartitionsResponse(payload []byte, version uint16) (r CreatePartit
 			offset += o
 			r.Results[i].ErrorMessage = msg
 		}
-		// TAG_BUFFER
-		offset++
+		if version >= 2 {
+			_, o := DecodeTaggedFields(payload[offset:])
+			offset += o
+		}
 	}
-	// TAG_BUFFER
-	offset++
 
 	return
 }
-- 
2.43.0


From 030953434b6ba9db661611ac6ce9971226dbe56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:55 +0000
Subject: [PATCH 26/82] fix: read the tagged fields of a list partition
 reassignments response

---
 list_partition_reassignments_response.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/list_partition_reassignments_response.go b/list_partition_reassignments_response.go
index de1e77a..9a57d42 100644
--- a/list_partition_reassignments_response.go
+++ b/list_partition_reassignments_response.go
@@ -37,7 +37,7 @@ func decodeToListPartitionReassignmentsTopicBlock(payload []byte) (r listPartiti
 		}
 	}
 
-	_, o = binary.Uvarint(payload[offset:]) // TAG_BUFFER
+	_, o = DecodeTaggedFields(payload[offset:])
 	offset += o
 
 	return
@@ -85,7 +85,7 @@ func decodeToListPartitionReassignmentsPartitionBlock(payload []byte) (r listPar
 			offset += 4
 		}
 	}
-	_, o = binary.Uvarint(payload[offset:]) // TAG_BUFFER
+	_, o = DecodeTaggedFields(payload[offset:])
 	offset += o
 	return
 }
@@ -105,8 +105,9 @@ func NewListPartitionReassignmentsResponse(payload []byte, version uint16) (r *L
 	}
 	offset += 4
 
-	r.CorrelationID = uint32(binary.BigEndian.Uint32(payload[offset:]))
-	offset += 4
+	header, o := DecodeResponseHeader(payload[offset:], API_ListPartitionReassignments, version)
+	r.CorrelationID = header.CorrelationID
+	offset += o
 
 	r.ThrottleTimeMS = int32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
@@ -114,9 +115,6 @@ func NewListPartitionReassignmentsResponse(payload []byte, version uint16) (r *L
 	r.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
 
-	offset++ // I do not know what this byte means, always 0x01 , additonal byte after ErrorMessage and before Topics
-
-	var o int
 	r.ErrorMessage, o = compactNullableString(payload[offset:])
 	offset += o
 
@@ -132,7 +130,7 @@ func NewListPartitionReassignmentsResponse(payload []byte, version uint16) (r *L
 		}
 	}
 
-	_, o = binary.Uvarint(payload[offset:]) // TAG_BUFFER
+	_, o = DecodeTaggedFields(payload[offset:])
 	offset += o
 
 	return r, err
-- 
2.43.0


From 27dac46cb66f1af8c87a47cd9cb740843fef873b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:59 +0000
Subject: [PATCH 27/82] fix: accept a null partition array in an alter
 partition reassignments response

---
 alter_partition_reassignments_response.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alter_partition_reassignments_response.go b/alter_partition_reassignments_response.go
index 7a77dae..b17c82f 100644
--- a/alter_partition_reassignments_response.go
+++ b/alter_partition_reassignments_response.go
@@ -152,8 +152,8 @@ func NewAlterPartitionReassignmentsResponse(payload []byte, version uint16) (*Al
 
 			partitionCount, o := compactArrayLength(payload[offset:])
 			offset += o
-			if partitionCount <= 0 {
-				topic.Partitions = nil
+			if partitionCount < 0 {
+				partitionCount = 0
 			}
 
 			topic.Partitions = make([]*alterPartitionReassignmentsResponseTopicPartition, partitionCount)
-- 
2.43.0


From f82679cbd23fe37cbc7cc12774bbc9d64abf30cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:04 +0000
Subject: [PATCH 28/82] fix: accept a null error message in an alter configs
 response

---
 alter_config_response.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/alter_config_response.go b/alter_config_response.go
index 69d3167..a97a60d 100644
--- a/alter_config_response.go
+++ b/alter_config_response.go
@@ -32,9 +32,8 @@ func (r *AlterConfigsResponseResource) decode(payload []byte) (resourceLength in
 	r.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
 
-	l := int(binary.BigEndian.Uint16(payload[offset:]))
-	offset += 2
-	r.ErrorMessage = string(payload[offset : offset+l])
+	errorMessage, l := nullableString(payload[offset:])
+	r.ErrorMessage = stringOrEmpty(errorMessage)
 	offset += l
 
 	r.ResourceType = payload[offset]
-- 
2.43.0


From e7ed428a1f5e66297083ca5faccac7e2575af7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:08 +0000
Subject: [PATCH 29/82] fix: read the correlation id of a describe logdirs
 response

---
 describe_logdirs_response.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/describe_logdirs_response.go b/describe_logdirs_response.go
index b30bdf3..286f1ad 100644
--- a/describe_logdirs_response.go
+++ b/describe_logdirs_response.go
@@ -95,7 +95,7 @@ func NewDescribeLogDirsResponse(payload []byte, version uint16) (r DescribeLogDi
 	}
 	offset += 4
 
-	r.CoordinatorID = binary.BigEndian.Uint32(payload)
+	r.CoordinatorID = binary.BigEndian.Uint32(payload[offset:])
 	offset += 4
 
 	r.ThrottleTimeMS = int32(binary.BigEndian.Uint32(payload[offset:]))
-- 
2.43.0


From dbe1806ce2c34a022bc1fe0884be62e9a7ad60bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:12 +0000
Subject: [PATCH 30/82] fix: read the error message of a describe configs
 response whatever the error code

---
 describe_configs_response.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/describe_configs_response.go b/describe_configs_response.go
index dbd4db5..4adb49d 100644
--- a/describe_configs_response.go
+++ b/describe_configs_response.go
@@ -35,15 +35,11 @@ func decodeToDescribeConfigsResponseResource(payload []byte) (r describeConfigsR
 	r.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
 
-	if r.ErrorCode != 0 {
-		l = int(int16(binary.BigEndian.Uint16(payload[offset:])))
-		offset += 2
-		if l > 0 {
-			r.ErrorMessage = string(payload[offset : offset+l])
-			offset += l
-		}
-	} else {
-		offset += 2
+	l = int(int16(binary.BigEndian.Uint16(payload[offset:])))
+	offset += 2
+	if l > 0 {
+		r.ErrorMessage = string(payload[offset : offset+l])
+		offset += l
 	}
 
 	r.ResourceType = uint8(payload[offset])
-- 
2.43.0


From ec1263eed68080198e112fdc69bc1c6351cdd6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:16 +0000
Subject: [PATCH 31/82] fix: keep the kafka error code in the errors of delete
 topics, delete groups and describe configs responses

---
 delete_groups_response.go    | 2 +-
 delete_topics_response.go    | 5 +++--
 describe_configs_response.go | 2 +-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/delete_groups_response.go b/delete_groups_response.go
index df9b6d6..1987eb0 100644
--- a/delete_groups_response.go
+++ b/delete_groups_response.go
@@ -19,7 +19,7 @@ type DeleteGroupsResponse struct {
 func (r DeleteGroupsResponse) Error() error {
 	for _, result := range r.Results {
 		if result.ErrorCode != 0 {
-			return fmt.Errorf("delete group[%s] failed: %s", result.GroupID, KafkaError(result.ErrorCode))
+			return fmt.Errorf("delete group[%s] failed: %w", result.GroupID, KafkaError(result.ErrorCode))
 		}
 	}
 	return nil
diff --git a/delete_topics_response.go b/delete_topics_response.go
index b73a2d3..cab41c3 100644
--- a/delete_topics_response.go
+++ b/delete_topics_response.go
@@ -2,6 +2,7 @@ package healer
 
 import (
 	"encoding/binary"
+	"errors"
 	"fmt"
 )
 
@@ -20,12 +21,12 @@ func (r DeleteTopicsResponse) Error() error {
 	for _, result := range r.Results {
 		if result.ErrorCode != 0 {
 			allErrors = append(allErrors,
-				fmt.Errorf("delete topic[%s] failed: %s",
+				fmt.Errorf("delete topic[%s] failed: %w",
 					result.TopicName, KafkaError(result.ErrorCode)))
 		}
 	}
 	if (len(allErrors)) > 0 {
-		return fmt.Errorf("delete topics failed: %v", allErrors)
+		return fmt.Errorf("delete topics failed: %w", errors.Join(allErrors...))
 	}
 	return nil
 }
diff --git a/describe_configs_response.go b/describe_configs_response.go
index 4adb49d..36502e7 100644
--- a/describe_configs_response.go
+++ b/describe_configs_response.go
@@ -15,7 +15,7 @@ type DescribeConfigsResponse struct {
 func (r DescribeConfigsResponse) Error() error {
 	for _, resource := range r.Resources {
 		if resource.ErrorCode != 0 {
-			return fmt.Errorf("describe configs failed: %s", KafkaError(resource.ErrorCode))
+			return fmt.Errorf("describe configs failed: %w", KafkaError(resource.ErrorCode))
 		}
 	}
 	return nil
-- 
2.43.0


From 3ae35847b7a3824699c8e2e2bc979567f7590790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:18 +0000
Subject: [PATCH 32/82] fix: alter configs response decodes every resource, not
 the first one repeatedly

---
 alter_config_response.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alter_config_response.go b/alter_config_response.go
index a97a60d..d468cee 100644
--- a/alter_config_response.go
+++ b/alter_config_response.go
@@ -43,7 +43,7 @@ func (r *AlterConfigsResponseResource) decode(payload []byte) (resourceLength in
 	offset += 2
 	r.ResourceName = string(payload[offset : offset+l])
 	offset += l
-	return
+	return offset
 }
 
 func NewAlterConfigsResponse(payload []byte) (r AlterConfigsResponse, err error) {
-- 
2.43.0


From 102ac60b83949e7a81bf81494eb406eb320e518a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:22 +0000
Subject: [PATCH 33/82] fix: incremental alter configs response decodes every
 resource, not the first one repeatedly

---
 incremental_alter_config_response.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_alter_config_response.go b/incremental_alter_config_response.go
index c78f3c0..2defbb8 100644
--- a/incremental_alter_config_response.go
+++ b/incremental_alter_config_response.go
@@ -50,7 +50,7 @@ func decodeToIncrementalAlterConfigsResponseResource(payload []byte, version uin
 		r.ResourceName = string(payload[offset : offset+int(l)])
 		offset += int(l)
 	}
-	return
+	return r, offset
 }
 
 // NewIncrementalAlterConfigsResponse create a new IncrementalAlterConfigsResponse.
-- 
2.43.0


From 629ba5a8d47554a1b5c9c5e8aac829a32d41de5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:49 +0000
Subject: [PATCH 34/82] fix: INVALID_REGISTRATION is error code 119 and no
 longer hides TELEMETRY_TOO_LARGE

---
 errorcode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/errorcode.go b/errorcode.go
index c51946d..4987a45 100644
--- a/errorcode.go
+++ b/errorcode.go
@@ -766,7 +766,7 @@ func init() {
 		Retriable: false,
 		ErrorDesc: "Client sent a push telemetry request larger than the maximum size the broker will accept.",
 	}
-	AllError[118] = &Error{
+	AllError[119] = &Error{
 		ErrorMsg:  "INVALID_REGISTRATION",
 		ErrorCode: 119,
 		Retriable: false,
-- 
2.43.0


From 6a2f7699bf27e853c13b940756a92b387e4cd951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:53 +0000
Subject: [PATCH 35/82] fix: an error code without a known name is reported as
 a kafka error like any other

---
 errorcode.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/errorcode.go b/errorcode.go
index 4987a45..1ca05a1 100644
--- a/errorcode.go
+++ b/errorcode.go
@@ -35,11 +35,7 @@ func getErrorFromErrorCode(errorcode int16) error {
 		return nil
 	}
 
-	if _, ok := AllError[errorcode]; ok {
-		return KafkaError(errorcode)
-	}
-
-	return fmt.Errorf("unknown error code:%d", errorcode)
+	return KafkaError(errorcode)
 }
 
 // stringOrEmpty returns the error message that came with an error code, which may be null
-- 
2.43.0


From 4978682dcf170061cc9b313d488e82f5aa2da252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:13 +0000
Subject: [PATCH 36/82] fix: ACL operation and permission UNKNOWN parse back to
 the code they came from

---
 acl_types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acl_types.go b/acl_types.go
index 65aa854..f99257e 100644
--- a/acl_types.go
+++ b/acl_types.go
@@ -182,7 +182,7 @@ func (o AclsOperation) MarshalText() ([]byte, error) {
 func (o *AclsOperation) UnmarshalText(text []byte) error {
 	switch strings.ToUpper(string(text)) {
 	case "UNKNOWN", "0":
-		*o = AclsOperationAny
+		*o = AclsOperationUnknown
 	case "ANY", "1":
 		*o = AclsOperationAny
 	case "ALL", "2":
@@ -245,7 +245,7 @@ func (p AclsPermissionType) MarshalText() ([]byte, error) {
 func (p *AclsPermissionType) UnmarshalText(text []byte) error {
 	switch strings.ToUpper(string(text)) {
 	case "UNKNOWN", "0":
-		*p = AclsPermissionTypeAny
+		*p = AclsPermissionTypeUnkown
 	case "ANY", "1":
 		*p = AclsPermissionTypeAny
 	case "DENY", "2":
-- 
2.43.0


From 1fa4da868836f298e969873ce121417a92d28a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:17 +0000
Subject: [PATCH 37/82] fix: a missing producer config is validated like any
 other

---
 config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config.go b/config.go
index 1e0cc76..e2acd73 100644
--- a/config.go
+++ b/config.go
@@ -265,7 +265,7 @@ func createProducerConfig(config interface{}) (c ProducerConfig, err error) {
 
 	switch v := config.(type) {
 	case nil:
-		return defaultProducerConfig, nil
+		c = defaultProducerConfig
 	case map[string]interface{}:
 		c = defaultProducerConfig
 		if err := mapstructure.WeakDecode(config, &c); err != nil {
-- 
2.43.0


From 63d9a0303210447e3e614a1e80fbf3651418dcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:47 +0000
Subject: [PATCH 38/82] fix: a connection whose response timed out is closed
 although the timeout error is wrapped

---
 broker.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/broker.go b/broker.go
index 4f44682..d118c97 100644
--- a/broker.go
+++ b/broker.go
@@ -245,7 +245,8 @@ func (broker *Broker) RequestAndGet(r Request) (resp Response, err error) {
 	}
 
 	defer func() {
-		if os.IsTimeout(err) || errors.Is(err, io.EOF) || errors.Is(err, syscall.EPIPE) {
+		var netErr net.Error
+		if (errors.As(err, &netErr) && netErr.Timeout()) || errors.Is(err, io.EOF) || errors.Is(err, syscall.EPIPE) {
 			broker.Close()
 		}
 	}()
-- 
2.43.0


From 00bd9ef725466603bee8e52bfa1284405548c8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:51 +0000
Subject: [PATCH 39/82] fix: a response shorter than its header is an error,
 not a panic

---
 response.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/response.go b/response.go
index df43f67..c0f9226 100644
--- a/response.go
+++ b/response.go
@@ -82,6 +82,9 @@ func (p defaultReadParser) Read() ([]byte, error) {
 		}
 	}
 	copy(resp[0:4], responseLengthBuf)
+	if responseLength < 4 {
+		return nil, errors.New("response is too short to hold a correlation id")
+	}
 	logger.V(5).Info("response info", "length", len(resp), "CorrelationID", binary.BigEndian.Uint32(resp[4:]))
 	return resp, nil
 }
-- 
2.43.0


From 42c520ae14db54a26c4896df28e12528db0ae5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:56 +0000
Subject: [PATCH 40/82] fix: a connection that could not be authenticated is
 closed, so the next request does not use it

---
 broker.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/broker.go b/broker.go
index d118c97..e1d9a9f 100644
--- a/broker.go
+++ b/broker.go
@@ -76,10 +76,15 @@ func (broker *Broker) createConn() error {
 }
 
 // create a new connection to the broker, and then do the sasl authenticate if needed
-func (broker *Broker) createConnAndAuth() error {
+func (broker *Broker) createConnAndAuth() (err error) {
 	if err := broker.createConn(); err != nil {
 		return err
 	}
+	defer func() {
+		if err != nil {
+			broker.Close()
+		}
+	}()
 
 	clientID := "healer-init"
 	apiVersionsResponse, err := broker.requestAPIVersions(clientID)
-- 
2.43.0


From f2f46e3be402fe827ebe17388022f8b4829654f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:00 +0000
Subject: [PATCH 41/82] fix: authenticating again on a reopened connection does
 not lock the broker twice

---
 broker.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/broker.go b/broker.go
index e1d9a9f..b3a84f2 100644
--- a/broker.go
+++ b/broker.go
@@ -169,24 +169,26 @@ func (broker *Broker) sendSaslAuthenticate() error {
 	)
 
 	saslHandShakeRequest := NewSaslHandShakeRequest(clientID, mechanism)
-	resp, err := broker.RequestAndGet(saslHandShakeRequest)
-	if err != nil {
+	if err := broker.requestInInit(saslHandShakeRequest); err != nil {
 		return err
 	}
-	if resp.Error() != nil {
-		return resp.Error()
-	}
 
 	// authenticate
 	saslAuthenticateRequest := NewSaslAuthenticateRequest(clientID, user, password, mechanism)
-	resp, err = broker.RequestAndGet(saslAuthenticateRequest)
+	return broker.requestInInit(saslAuthenticateRequest)
+}
+
+// used in createConnAndAuth, which may be called with broker.mux held. so it must not lock it again as RequestAndGet does
+func (broker *Broker) requestInInit(r Request) error {
+	rp, err := broker.Request(r)
 	if err != nil {
 		return err
 	}
-	if resp.Error() != nil {
-		return resp.Error()
+	resp, err := rp.ReadAndParse()
+	if err != nil {
+		return err
 	}
-	return nil
+	return resp.Error()
 }
 
 // GetAddress returns the broker address
-- 
2.43.0


From eb39645bf6969827d26c5b50c088817550d50163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:04 +0000
Subject: [PATCH 42/82] fix: a fetch request that cannot be written is an
 error, and its response length may arrive in pieces

---
 broker.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/broker.go b/broker.go
index b3a84f2..d3cda61 100644
--- a/broker.go
+++ b/broker.go
@@ -301,19 +301,17 @@ func (broker *Broker) requestStreamingly(payload []byte, timeout int) (r io.Read
 	correlationID := binary.BigEndian.Uint32(payload[8:])
 	logger.V(5).Info("request info", "length", len(payload), "api", api, "apiVersion", apiVersion, "correlationID", correlationID, "timeout", timeout)
 
-	io.Copy(broker.conn, bytes.NewBuffer(payload))
+	if _, err = io.Copy(broker.conn, bytes.NewBuffer(payload)); err != nil {
+		return nil, responseLength, err
+	}
 
 	responseLengthBuf := make([]byte, 4)
 	if timeout > 0 {
 		broker.conn.SetReadDeadline(time.Now().Add(time.Duration(timeout) * time.Millisecond))
 	}
-	n, err := broker.conn.Read(responseLengthBuf)
-	if err != nil {
+	if _, err = io.ReadFull(broker.conn, responseLengthBuf); err != nil {
 		return nil, responseLength, err
 	}
-	if n != 4 {
-		return nil, responseLength, errShortRead
-	}
 
 	responseLength = binary.BigEndian.Uint32(responseLengthBuf)
 	logger.V(5).Info("got responseLength", "responseLength", responseLength)
-- 
2.43.0


From eef9568e90a2c66680b51c65d32e49323e44da83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:08 +0000
Subject: [PATCH 43/82] fix: a fetch opens the connection only while it holds
 the broker

---
 broker.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/broker.go b/broker.go
index d3cda61..6d14eab 100644
--- a/broker.go
+++ b/broker.go
@@ -374,13 +374,13 @@ func (broker *Broker) requestOffsets(clientID, topic string, partitionIDs []int3
 }
 
 func (broker *Broker) requestFetchStreamingly(fetchRequest *FetchRequest) (r io.Reader, responseLength uint32, err error) {
+	broker.mux.Lock()
+	defer broker.mux.Unlock()
+
 	if err := broker.ensureOpen(); err != nil {
 		return nil, 0, err
 	}
 
-	broker.mux.Lock()
-	defer broker.mux.Unlock()
-
 	broker.correlationID++
 
 	fetchRequest.SetCorrelationID(broker.correlationID)
-- 
2.43.0


From 090357f9dddb93a32f020199b2bfcb5fe705eb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:12 +0000
Subject: [PATCH 44/82] fix: a failed leave group request returns its error
 instead of panicking

---
 broker.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/broker.go b/broker.go
index 6d14eab..af69717 100644
--- a/broker.go
+++ b/broker.go
@@ -444,5 +444,8 @@ func (broker *Broker) requestHeartbeat(clientID, groupID string, generationID in
 func (broker *Broker) requestLeaveGroup(clientID, groupID string, memberID string) (r LeaveGroupResponse, err error) {
 	leaveReq := NewLeaveGroupRequest(clientID, groupID, memberID)
 	resp, err := broker.RequestAndGet(leaveReq)
-	return resp.(LeaveGroupResponse), err
+	if v, ok := resp.(LeaveGroupResponse); ok {
+		return v, err
+	}
+	return r, err
 }
-- 
2.43.0


From 39b36c72d02bb92e485922b3d21580fd5f63693c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:11 +0000
Subject: [PATCH 45/82] fix: a topic that no member subscribes to is assigned
 to nobody instead of dividing by zero

---
 assign.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/assign.go b/assign.go
index d043cd1..5495a53 100644
--- a/assign.go
+++ b/assign.go
@@ -75,6 +75,9 @@ func (r *rangeAssignmentStrategy) Assign(members []Member, topicMetadatas []Topi
 				}
 			}
 		}
+		if len(membersWithTheTopic) == 0 {
+			continue
+		}
 		topicPartitionsAssignments[topicMetadata.TopicName] = r.assignPartitions(membersWithTheTopic, partitions)
 	}
 
-- 
2.43.0


From fffc999b2cdbfeaff7ae9c61d9e1a6af2d0aef76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:13 +0000
Subject: [PATCH 46/82] fix: encode a null key or value of a record as null

---
 record.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/record.go b/record.go
index 3dfdb3d..a141672 100644
--- a/record.go
+++ b/record.go
@@ -65,7 +65,7 @@ func (r *Record) Encode(version uint16) (payload []byte, err error) {
 
 	keyLenBuf := make([]byte, binary.MaxVarintLen64)
 	if r.key == nil {
-		binary.PutVarint(keyLenBuf, -1)
+		n = binary.PutVarint(keyLenBuf, -1)
 	} else {
 		n = binary.PutVarint(keyLenBuf, int64(len(r.key)))
 	}
@@ -74,7 +74,11 @@ func (r *Record) Encode(version uint16) (payload []byte, err error) {
 
 	// Encode value
 	valueLenBuf := make([]byte, binary.MaxVarintLen64)
-	n = binary.PutVarint(valueLenBuf, int64(len(r.value)))
+	if r.value == nil {
+		n = binary.PutVarint(valueLenBuf, -1)
+	} else {
+		n = binary.PutVarint(valueLenBuf, int64(len(r.value)))
+	}
 	buf.Write(valueLenBuf[:n])
 	buf.Write(r.value)
 
-- 
2.43.0


From 1376059c15dbe474b0602b6fd18392453e19dd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:14 +0000
Subject: [PATCH 47/82] fix: a record batch that cannot be compressed is an
 error, not a panic

---
 record.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/record.go b/record.go
index a141672..39726ad 100644
--- a/record.go
+++ b/record.go
@@ -3,6 +3,7 @@ package healer
 import (
 	"bytes"
 	"encoding/binary"
+	"fmt"
 	"hash/crc32"
 )
 
@@ -215,6 +216,9 @@ func (r *RecordBatch) Encode(version uint16) (payload []byte, err error) {
 
 	// BatchLength is variable, so reserve space for it.
 	defer func() {
+		if err != nil {
+			return
+		}
 		binary.BigEndian.PutUint32(payload[8:], uint32(buf.Len()-12)) // 12 is baseoffset + batchlength
 	}()
 
@@ -235,6 +239,9 @@ func (r *RecordBatch) Encode(version uint16) (payload []byte, err error) {
 	crcOffset := buf.Len()
 	binary.Write(buf, binary.BigEndian, r.CRC)
 	defer func() {
+		if err != nil {
+			return
+		}
 		crc := crc32.Checksum(payload[crcOffset+4:], castagnoliTable)
 		binary.BigEndian.PutUint32(payload[crcOffset:], crc)
 	}()
@@ -267,7 +274,7 @@ func (r *RecordBatch) Encode(version uint16) (payload []byte, err error) {
 		return nil, err
 	}
 
-	compress := CompressType(r.Attributes & 0b11)
+	compress := CompressType(r.Attributes & 0x07)
 
 	if compress == CompressionNone {
 		for _, record := range r.Records {
@@ -281,6 +288,9 @@ func (r *RecordBatch) Encode(version uint16) (payload []byte, err error) {
 		}
 	} else {
 		compressor := NewCompressor(compress.String())
+		if compressor == nil {
+			return nil, fmt.Errorf("unknown compression type %d", compress)
+		}
 		b := new(bytes.Buffer)
 		for _, record := range r.Records {
 			recordBytes, err := record.Encode(version)
-- 
2.43.0


From 9489bc3bd6303ba9cf22b4b6e05c70117da0d585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:15 +0000
Subject: [PATCH 48/82] fix: number the records of a batch by their offset
 delta

---
 simple_producer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simple_producer.go b/simple_producer.go
index d304dc7..4a588b5 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -172,6 +172,9 @@ func (p *SimpleProducer) Flush() error {
 
 func (p *SimpleProducer) createRecordBatch(records []*Record) RecordBatch {
 	ts := time.Now().UnixMilli()
+	for i, record := range records {
+		record.offsetDelta = int32(i)
+	}
 	batch := RecordBatch{
 		BaseOffset:           0,
 		BatchLength:          0,
-- 
2.43.0


From 07f537031ba9f3a97c3a2032d39848e0e16e29c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:51 +0000
Subject: [PATCH 49/82] fix: a compressed message set is uncompressed, not
 compressed again, and an unknown codec is an error

---
 fetch_response.go | 4 +++-
 message.go        | 9 ++-------
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/fetch_response.go b/fetch_response.go
index fef9dfa..d866b25 100644
--- a/fetch_response.go
+++ b/fetch_response.go
@@ -123,6 +123,8 @@ func uncompress(compress int8, reader io.Reader) (uncompressedBytes []byte, err
 		if err != nil {
 			return nil, fmt.Errorf("uncompress lz4 records error: %w", err)
 		}
+	default:
+		return nil, fmt.Errorf("unknown compression type %d", compress)
 	}
 	return uncompressedBytes, nil
 }
@@ -223,7 +225,7 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeRecordsMagic2(topicName s
 	// magic := buf[16]
 	// crc := binary.BigEndian.Uint32(buf[17:])
 	attributes := binary.BigEndian.Uint16(buf[21:])
-	compress := attributes & 0b11
+	compress := attributes & 0x07
 	// lastOffsetDelta := binary.BigEndian.Uint32(buf[23:])
 	baseTimestamp := binary.BigEndian.Uint64(buf[27:])
 	// maxTimestamp := binary.BigEndian.Uint64(buf[35:])
diff --git a/message.go b/message.go
index 5d1c319..8cc6120 100644
--- a/message.go
+++ b/message.go
@@ -1,9 +1,9 @@
 package healer
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
-	"fmt"
 	"hash/crc32"
 )
 
@@ -38,12 +38,7 @@ type Message struct {
 type MessageSet []*Message
 
 func (message *Message) decompress() ([]byte, error) {
-	compression := CompressType(message.Attributes & 0b11)
-	compressor := NewCompressor(compression.String())
-	if compressor == nil {
-		return nil, fmt.Errorf("unknown Compression Type %s", compression)
-	}
-	return compressor.Compress(message.Value)
+	return uncompress(message.Attributes&0x07, bytes.NewReader(message.Value))
 }
 
 func (messageSet *MessageSet) Length() int {
-- 
2.43.0


From d1532e3f50faf34171767ff8e4d1209724654b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:53 +0000
Subject: [PATCH 50/82] fix: messages of a compressed magic 1 message set carry
 their absolute offsets

---
 message.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/message.go b/message.go
index 8cc6120..8575d00 100644
--- a/message.go
+++ b/message.go
@@ -170,6 +170,13 @@ func DecodeToMessageSet(payload []byte) (MessageSet, error) {
 				// TODO go on to next message in the messageSet?
 				return messageSet, err
 			}
+			// offsets inside a compressed message of magic 1 are relative, the wrapper carries the offset of the last one
+			if message.MagicByte == 1 && len(_messageSet) > 0 {
+				base := message.Offset - _messageSet[len(_messageSet)-1].Offset
+				for _, m := range _messageSet {
+					m.Offset += base
+				}
+			}
 			messageSet = append(messageSet, _messageSet...)
 		} else {
 			messageSet = append(messageSet, message)
-- 
2.43.0


From 0f503cf1f11b223cba47cabce30c00c9c9b224d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:54 +0000
Subject: [PATCH 51/82] fix: a fetch response decodes the same however the
 network splits it into reads

---
 fetch_response.go | 42 ++++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/fetch_response.go b/fetch_response.go
index d866b25..3e9ee58 100644
--- a/fetch_response.go
+++ b/fetch_response.go
@@ -145,16 +145,15 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeMessageSetMagic0or1(topic
 
 			// 12 is the size of offset(int64) & message_size(int32) in header17
 			value = make([]byte, 12+messageSize)
-			n, e := streamDecoder.Read(value[17:])
+			n, e := io.ReadFull(streamDecoder, value[17:])
 			offset += n
+			// remaining bytes is incomplete
+			if e == io.ErrUnexpectedEOF {
+				return offset, nil
+			}
 			if e != nil {
 				return offset, e
 			}
-
-			// remaining bytes is incomplete
-			if n < len(value)-17 {
-				return offset, err
-			}
 			copy(value, header17)
 		} else {
 			buf, n, err := streamDecoder.read(12)
@@ -167,14 +166,13 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeMessageSetMagic0or1(topic
 			}
 			messageSize := int(binary.BigEndian.Uint32(buf[8:]))
 			value = make([]byte, 12+messageSize)
-			n, err = streamDecoder.Read(value[12:])
+			n, err = io.ReadFull(streamDecoder, value[12:])
 			offset += n
-			if err != nil {
-				return offset, err
-			}
-
 			// remaining bytes is incomplete
-			if n < len(value)-17 {
+			if err == io.ErrUnexpectedEOF {
+				return offset, nil
+			}
+			if err != nil {
 				return offset, err
 			}
 			copy(value, buf)
@@ -372,17 +370,17 @@ func (streamDecoder *fetchResponseStreamDecoder) decodePartitionResponse(topicNa
 	)
 
 	defer func() {
-		if errors.Is(err, io.EOF) {
+		if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
 			err = &maxBytesTooSmall
 		}
 	}()
 
-	if _, err = streamDecoder.Read(buf[:4]); err != nil {
+	if _, err = io.ReadFull(streamDecoder, buf[:4]); err != nil {
 		return err
 	}
 	p.PartitionID = int32(binary.BigEndian.Uint32(buf))
 
-	if _, err = streamDecoder.Read(buf[:2]); err != nil {
+	if _, err = io.ReadFull(streamDecoder, buf[:2]); err != nil {
 		return err
 	}
 	p.ErrorCode = int16(binary.BigEndian.Uint16(buf))
@@ -390,24 +388,24 @@ func (streamDecoder *fetchResponseStreamDecoder) decodePartitionResponse(topicNa
 		return KafkaError(p.ErrorCode)
 	}
 
-	if _, err = streamDecoder.Read(buf[:8]); err != nil {
+	if _, err = io.ReadFull(streamDecoder, buf[:8]); err != nil {
 		return err
 	}
 	// p.HighWatermark = int64(binary.BigEndian.Uint64(buf))
 
 	switch version {
 	case 7, 10:
-		if _, err = streamDecoder.Read(buf[:8]); err != nil {
+		if _, err = io.ReadFull(streamDecoder, buf[:8]); err != nil {
 			return err
 		}
 		// p.LastStableOffset = int64(binary.BigEndian.Uint64(buf))
 
-		if _, err = streamDecoder.Read(buf[:8]); err != nil {
+		if _, err = io.ReadFull(streamDecoder, buf[:8]); err != nil {
 			return err
 		}
 		// p.LogStartOffset = int64(binary.BigEndian.Uint64(buf))
 
-		if _, err = streamDecoder.Read(buf[:4]); err != nil {
+		if _, err = io.ReadFull(streamDecoder, buf[:4]); err != nil {
 			return err
 		}
 		abortedTransactionsCount := int32(binary.BigEndian.Uint32(buf))
@@ -417,12 +415,12 @@ func (streamDecoder *fetchResponseStreamDecoder) decodePartitionResponse(topicNa
 				FirstOffset int64
 			}, abortedTransactionsCount)
 			for i := 0; i < int(abortedTransactionsCount); i++ {
-				if _, err = streamDecoder.Read(buf[:8]); err != nil {
+				if _, err = io.ReadFull(streamDecoder, buf[:8]); err != nil {
 					return err
 				}
 				p.AbortedTransactions[i].ProducerID = int64(binary.BigEndian.Uint64(buf))
 
-				if _, err = streamDecoder.Read(buf[:8]); err != nil {
+				if _, err = io.ReadFull(streamDecoder, buf[:8]); err != nil {
 					return err
 				}
 				p.AbortedTransactions[i].FirstOffset = int64(binary.BigEndian.Uint64(buf))
@@ -430,7 +428,7 @@ func (streamDecoder *fetchResponseStreamDecoder) decodePartitionResponse(topicNa
 		}
 	}
 
-	if _, err = streamDecoder.Read(buf[:4]); err != nil {
+	if _, err = io.ReadFull(streamDecoder, buf[:4]); err != nil {
 		return err
 	}
 	p.RecordBatchesSize = int32(binary.BigEndian.Uint32(buf))
-- 
2.43.0


From b43ec297e7124eed229d5758922b36d0c8103a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:56 +0000
Subject: [PATCH 52/82] fix: decoding the message set of a partition stops at
 its end

---
 fetch_response.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fetch_response.go b/fetch_response.go
index 3e9ee58..951a4c1 100644
--- a/fetch_response.go
+++ b/fetch_response.go
@@ -326,6 +326,14 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeMessageSet(topicName stri
 		}
 	}()
 
+	// the records of the partition end where its message set ends, even if the last one is truncated
+	buffers := streamDecoder.buffers
+	streamDecoder.buffers = io.LimitReader(buffers, int64(messageSetSizeBytes))
+	defer func() {
+		streamDecoder.readAll()
+		streamDecoder.buffers = buffers
+	}()
+
 	var (
 		offset int
 		o      int
-- 
2.43.0


From 93b489ce15a7bee36364f669fe5573be8f3e9464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:58 +0000
Subject: [PATCH 53/82] fix: a decoded record tells a null key, value or header
 value from an empty one

---
 record.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/record.go b/record.go
index 39726ad..5718a4d 100644
--- a/record.go
+++ b/record.go
@@ -23,8 +23,10 @@ func decodeHeader(payload []byte) (header RecordHeader, offset int) {
 
 	valueLength, o := binary.Varint(payload[offset:])
 	offset += o
-	header.Value = make([]byte, valueLength)
-	offset += copy(header.Value, payload[offset:offset+int(valueLength)])
+	if valueLength >= 0 {
+		header.Value = make([]byte, valueLength)
+		offset += copy(header.Value, payload[offset:offset+int(valueLength)])
+	}
 	return
 }
 
@@ -160,14 +162,14 @@ func DecodeToRecord(payload []byte) (record Record, offset int, err error) {
 	keyLength, o := binary.Varint(payload[offset:])
 	offset += o
 
-	if keyLength > 0 {
+	if keyLength >= 0 {
 		record.key = make([]byte, keyLength)
 		offset += copy(record.key, payload[offset:offset+int(keyLength)])
 	}
 
 	valueLen, o := binary.Varint(payload[offset:])
 	offset += o
-	if valueLen > 0 {
+	if valueLen >= 0 {
 		record.value = make([]byte, valueLen)
 		offset += copy(record.value, payload[offset:offset+int(valueLen)])
 	}
-- 
2.43.0


From 6fe0770b837eed9420229cf8fdb03019b5240f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:00 +0000
Subject: [PATCH 54/82] fix: encode a null header value of a record as null

---
 record.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/record.go b/record.go
index 5718a4d..2e662e0 100644
--- a/record.go
+++ b/record.go
@@ -108,7 +108,11 @@ func (r *Record) Encode(version uint16) (payload []byte, err error) {
 
 		// Encode Value length
 		valueLenBuf := make([]byte, binary.MaxVarintLen64)
-		n = binary.PutVarint(valueLenBuf, int64(len(header.Value)))
+		if header.Value == nil {
+			n = binary.PutVarint(valueLenBuf, -1)
+		} else {
+			n = binary.PutVarint(valueLenBuf, int64(len(header.Value)))
+		}
 		if _, err := buf.Write(valueLenBuf[:n]); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 187dbd3078c8d98ebb3fad4575662909eb743b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:17 +0000
Subject: [PATCH 55/82] fix: records of a batch with log append time carry that
 time

---
 fetch_response.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fetch_response.go b/fetch_response.go
index 951a4c1..b62aff7 100644
--- a/fetch_response.go
+++ b/fetch_response.go
@@ -226,7 +226,7 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeRecordsMagic2(topicName s
 	compress := attributes & 0x07
 	// lastOffsetDelta := binary.BigEndian.Uint32(buf[23:])
 	baseTimestamp := binary.BigEndian.Uint64(buf[27:])
-	// maxTimestamp := binary.BigEndian.Uint64(buf[35:])
+	maxTimestamp := binary.BigEndian.Uint64(buf[35:])
 	// producerID := binary.BigEndian.Uint64(buf[43:])
 	// producerEpoch := binary.BigEndian.Uint16(buf[51:])
 	// baseSequence := binary.BigEndian.Uint32(buf[53:])
@@ -265,9 +265,13 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeRecordsMagic2(topicName s
 			return offset, err
 		}
 		uncompressedBytesOffset += o
+		timestamp := uint64(record.timestampDelta) + baseTimestamp
+		if attributes&0x08 != 0 { // the broker set the timestamp when it appended the batch
+			timestamp = maxTimestamp
+		}
 		message := &Message{
 			Offset:     int64(record.offsetDelta) + baseOffset,
-			Timestamp:  uint64(record.timestampDelta) + baseTimestamp,
+			Timestamp:  timestamp,
 			Attributes: record.attributes,
 			MagicByte:  2,
 			Key:        record.key,
-- 
2.43.0


From d7c5b2da5f9509ebc2823ecd01418dedb319ae8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:55 +0000
Subject: [PATCH 56/82] fix: a consumer keeps its position when the offset
 lookup after offset-out-of-range fails

---
 simple_consumer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index 273af5b..5fb4eb0 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -474,8 +474,10 @@ func (c *SimpleConsumer) consumeMessages(innerMessages chan *FullMessage, messag
 				logger.Info("fetch.max.bytes is too small, double it", "new FetchMaxBytes", c.config.FetchMaxBytes)
 			}
 			if errors.Is(message.Error, KafkaError(1)) {
-				c.offset, err = c.getOffset(c.fromBeginning)
-				if err != nil {
+				var offset int64
+				if offset, err = c.getOffset(c.fromBeginning); err == nil {
+					c.offset = offset
+				} else {
 					logger.Error(err, "failed to get offset", "topic", c.topic, "partitionID", c.partitionID)
 				}
 			} else if errors.Is(message.Error, KafkaError(6)) {
-- 
2.43.0


From 5856e462c9c53b7b9f3e8ccba6c42419fe9dd675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:57 +0000
Subject: [PATCH 57/82] fix: after offset-out-of-range a consumer jumps where
 its configuration says, whatever offset it started from

---
 simple_consumer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simple_consumer.go b/simple_consumer.go
index 5fb4eb0..c28ed5f 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -350,6 +350,11 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 	c.messages = messages
 
 	c.offset = offset
+	if offset != -1 && offset != -2 {
+		c.fromBeginning = c.config.FromBeginning
+	} else {
+		c.fromBeginning = offset == -2
+	}
 
 	logger.V(5).Info("start consume from offset (before fetch offset)", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
 
-- 
2.43.0


From b88e9edb5a8e98f3fd08ab662bc0d89efab400f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:59 +0000
Subject: [PATCH 58/82] fix: the next fetch starts only after the previous
 response is read to its end

---
 simple_consumer.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index c28ed5f..af52ec5 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -438,21 +438,29 @@ func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
 
 		ctx, cancel := context.WithCancel(context.Background())
 		go func() {
-			if err := frsd.streamDecode(ctx, c.offset); err != nil {
-				if err == context.Canceled {
-					return
-				}
+			defer close(innerMessages)
+			if err := frsd.streamDecode(ctx, c.offset); err != nil && err != context.Canceled {
 				logger.Error(err, "failed to decode fetch response")
 			}
-			close(innerMessages)
 		}()
 
 		// consume all messages from one fetch response
 		wg.Add(1)
 		go func() {
+			defer wg.Done()
 			c.consumeMessages(innerMessages, messages)
 			cancel()
-			wg.Done()
+			// the next fetch must not read from the connection before this response is read to its end
+			for {
+				select {
+				case <-c.ctx.Done():
+					return
+				case _, ok := <-innerMessages:
+					if !ok {
+						return
+					}
+				}
+			}
 		}()
 		wg.Wait()
 	}
-- 
2.43.0


From c6e6d0a2047bb6ecdfc493f6e7f40aacd945977a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:00 +0000
Subject: [PATCH 59/82] fix: a simple consumer commits and records the same
 offset, and never a negative one

---
 simple_consumer.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index af52ec5..6ed2813 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -294,7 +294,11 @@ func (c *SimpleConsumer) Stop() {
 }
 
 // call this when simpleConsumer NOT belong to GroupConsumer, or call BelongTo.Commit()
-func (c *SimpleConsumer) commitOffset() bool {
+func (c *SimpleConsumer) commitOffset(offset int64) bool {
+	if offset < 0 {
+		logger.V(3).Info("invalid commit offset", "offset", offset)
+		return false
+	}
 	var apiVersion uint16
 	if c.config.OffsetsStorage == 1 {
 		apiVersion = 2
@@ -306,14 +310,14 @@ func (c *SimpleConsumer) commitOffset() bool {
 	offsetComimtReq.SetMemberID("")
 	offsetComimtReq.SetGenerationID(-1)
 	offsetComimtReq.SetRetentionTime(-1)
-	offsetComimtReq.AddPartiton(c.topic, c.partitionID, c.offset, "")
+	offsetComimtReq.AddPartiton(c.topic, c.partitionID, offset, "")
 
 	_, err := c.coordinator.RequestAndGet(offsetComimtReq)
 	if err == nil {
-		logger.V(3).Info("offset committed", "GroupID", c.config.GroupID, "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
+		logger.V(3).Info("offset committed", "GroupID", c.config.GroupID, "topic", c.topic, "partitionID", c.partitionID, "offset", offset)
 		return true
 	}
-	logger.Error(err, "commit offset failed", "GroupID", c.config.GroupID, "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
+	logger.Error(err, "commit offset failed", "GroupID", c.config.GroupID, "topic", c.topic, "partitionID", c.partitionID, "offset", offset)
 	return false
 }
 
@@ -321,17 +325,17 @@ func (c *SimpleConsumer) commitOffset() bool {
 // if simpleConsumer belong to a GroupConsumer, it uses groupconsumer to commit
 // else if it has GroupId, it use its own coordinator to commit
 func (c *SimpleConsumer) CommitOffset() {
-	if c.offset == c.offsetCommited {
-		logger.V(3).Info("current offset does not change, skip committing", "offset", c.offset, "topic", c.topic, "partitionID", c.partitionID)
+	offset := c.offset
+	if offset == c.offsetCommited {
+		logger.V(3).Info("current offset does not change, skip committing", "offset", offset, "topic", c.topic, "partitionID", c.partitionID)
 		return
 	}
-	offset := c.offset
 	if c.belongTO != nil {
 		if c.belongTO.commitOffset(c.topic, c.partitionID, offset) {
 			c.offsetCommited = offset
 		}
 	} else if c.config.GroupID != "" {
-		if c.commitOffset() {
+		if c.commitOffset(offset) {
 			c.offsetCommited = offset
 		}
 	}
-- 
2.43.0


From e693c8b49182d7ff6b14af52eddcb6d4364ec721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:02 +0000
Subject: [PATCH 60/82] fix: an offsets response without the partition is an
 error, not a panic

---
 simple_consumer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index 6ed2813..a1cbeac 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -218,7 +218,12 @@ func (c *SimpleConsumer) getOffset(fromBeginning bool) (int64, error) {
 	if err := offsetsResponse.Error(); err != nil {
 		return -1, err
 	}
-	return int64(offsetsResponse.TopicPartitionOffsets[c.topic][0].GetOffset()), nil
+	for _, p := range offsetsResponse.TopicPartitionOffsets[c.topic] {
+		if p.Partition == c.partitionID {
+			return int64(p.GetOffset()), nil
+		}
+	}
+	return -1, fmt.Errorf("no offset of %s-%d in offsets response", c.topic, c.partitionID)
 }
 
 func (c *SimpleConsumer) getCommitedOffet() error {
-- 
2.43.0


From be201966bea959203920abb6876ba20d2387a3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:03 +0000
Subject: [PATCH 61/82] fix: a leader broker that cannot be created is an
 error, not a panic

---
 simple_consumer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index a1cbeac..df33c9c 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -168,7 +168,7 @@ func (c *SimpleConsumer) getLeaderBroker() error {
 	leaderBroker, err = c.brokers.NewBroker(leaderID)
 	if err != nil {
 		// FIXME refresh metadata
-		logger.Error(err, "could not create broker. maybe should refresh metadata.", "leaderID", leaderID, "leaderAddress", c.brokers.brokers[leaderID].address)
+		logger.Error(err, "could not create broker. maybe should refresh metadata.", "leaderID", leaderID)
 		return err
 	}
 
-- 
2.43.0


From 736a2b2cd44bacab3136ae0e6928e4ce7dc836f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:05 +0000
Subject: [PATCH 62/82] fix: a heartbeat that finds the member unknown or the
 coordinator moved is acted upon before the next join

---
 group_consumer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/group_consumer.go b/group_consumer.go
index 98c927a..7d1b8d3 100644
--- a/group_consumer.go
+++ b/group_consumer.go
@@ -314,6 +314,12 @@ func (c *GroupConsumer) heartbeat() error {
 
 	logger.V(5).Info("heartbeat", "generationID", c.generationID, "memberID", c.memberID)
 	_, err := c.coordinator.requestHeartbeat(c.config.ClientID, c.config.GroupID, c.generationID, c.memberID)
+	if errors.Is(err, KafkaError(25)) {
+		c.memberID = ""
+	}
+	if errors.Is(err, KafkaError(15)) || errors.Is(err, KafkaError(16)) {
+		c.coordinatorAvailable = false
+	}
 	return err
 }
 
-- 
2.43.0


From 99d0b968f8b3543a2be0ee89396ef200a2c520af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:07 +0000
Subject: [PATCH 63/82] fix: a producer for a partition without leader is an
 error, not a nil leader

---
 simple_producer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simple_producer.go b/simple_producer.go
index 4a588b5..f07fd75 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -46,7 +46,10 @@ func (p *SimpleProducer) createLeader() (*Broker, error) {
 	}
 
 	leaderID, err := p.brokers.findLeader(p.config.ClientID, p.topic, p.partition)
-	if err != nil || leaderID == -1 {
+	if err == nil && leaderID == -1 {
+		err = errNoLeader
+	}
+	if err != nil {
 		logger.Error(err, "could not get leader", "topic", p.topic, "partitionID", p.partition)
 		return nil, err
 	}
-- 
2.43.0


From 4c5f425a6616d35ff9fcec0167505ebe04c5a188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:08 +0000
Subject: [PATCH 64/82] fix: a metadata response without the topic is an error,
 not a panic

---
 brokers.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/brokers.go b/brokers.go
index 94e993f..ac434c4 100644
--- a/brokers.go
+++ b/brokers.go
@@ -254,6 +254,9 @@ func (brokers *Brokers) RequestOffsets(clientID, topic string, partitionID int32
 	}
 
 	// TODO only one topic
+	if len(metadataResponse.TopicMetadatas) == 0 {
+		return nil, fmt.Errorf("no metadata of topic[%s]", topic)
+	}
 	topicMetadata := metadataResponse.TopicMetadatas[0]
 
 	if partitionID >= 0 {
@@ -301,6 +304,9 @@ func (brokers *Brokers) findLeader(clientID, topic string, partitionID int32) (i
 		return -1, fmt.Errorf("could not get metadata of topic %s: %w", topic, err)
 	}
 
+	if len(metadataResponse.TopicMetadatas) == 0 {
+		return -1, fmt.Errorf("no metadata of topic %s", topic)
+	}
 	partitionMetadatas := metadataResponse.TopicMetadatas[0].PartitionMetadatas
 	for _, partitionMetadata := range partitionMetadatas {
 		if partitionMetadata.PartitionID == partitionID {
-- 
2.43.0


From 91f3e50040aa8164e0867c5323478fb7684c6feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:10 +0000
Subject: [PATCH 65/82] fix: refreshing the metadata refreshes the controller
 too

---
 brokers.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/brokers.go b/brokers.go
index ac434c4..3bbff2f 100644
--- a/brokers.go
+++ b/brokers.go
@@ -134,6 +134,7 @@ func (brokers *Brokers) refreshMetadata() bool {
 			brokersInfo[brokerInfo.NodeID] = brokerInfo
 		}
 		brokers.brokersInfo = brokersInfo
+		brokers.controllerID = metadataResponse.ControllerID
 
 		for nodeID, broker := range brokers.brokersInfo {
 			logger.V(3).Info("brokers in cluster", "nodeID", nodeID, "host", broker.Host, "port", broker.Port)
@@ -161,6 +162,7 @@ func (brokers *Brokers) refreshMetadata() bool {
 			brokersInfo[brokerInfo.NodeID] = brokerInfo
 		}
 		brokers.brokersInfo = brokersInfo
+		brokers.controllerID = metadataResponse.ControllerID
 
 		for nodeID, broker := range brokers.brokersInfo {
 			logger.V(3).Info("brokers in cluster", "nodeID", nodeID, "host", broker.Host, "port", broker.Port)
-- 
2.43.0


From 0e619bcfd95e20599bcf7eb0c7a1257171408169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:13 +0000
Subject: [PATCH 66/82] fix: a cached broker whose node moved to another
 address is not used any more

---
 brokers.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/brokers.go b/brokers.go
index 3bbff2f..b3a1834 100644
--- a/brokers.go
+++ b/brokers.go
@@ -199,7 +199,13 @@ func (brokers *Brokers) GetBroker(nodeID int32) (*Broker, error) {
 	defer brokers.mutex.Unlock()
 
 	if broker, ok := brokers.brokers[nodeID]; ok {
-		return broker, nil
+		brokerInfo, known := brokers.brokersInfo[nodeID]
+		if !known || brokerInfo.NetAddress() == broker.address {
+			return broker, nil
+		}
+		// the node moved since the connection was cached
+		broker.Close()
+		delete(brokers.brokers, nodeID)
 	}
 
 	if _, ok := brokers.brokersInfo[nodeID]; !ok {
-- 
2.43.0


From a91dadc661fbc559e8e4cf264f62b85dc83edd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:16 +0000
Subject: [PATCH 67/82] fix: list groups names the node a group was found on
 also for the bootstrap broker

---
 client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 3619d2d..64122dd 100644
--- a/client.go
+++ b/client.go
@@ -56,7 +56,7 @@ func (c *Client) ListGroups() (groups map[int32][]*Group, err error) {
 			return groups, err
 		}
 		if len(response.Groups) > 0 {
-			groups[broker.nodeID] = response.Groups
+			groups[brokerinfo.NodeID] = response.Groups
 		}
 	}
 	return groups, nil
-- 
2.43.0


From 664e1971115dd591a5b5ea5e92253b72e76d653e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:19 +0000
Subject: [PATCH 68/82] fix: a failed delete topics request returns its error
 instead of panicking

---
 client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 64122dd..de14f02 100644
--- a/client.go
+++ b/client.go
@@ -157,7 +157,10 @@ func (c *Client) DeleteTopics(topics []string, timeoutMs int32) (r DeleteTopicsR
 	}
 
 	resp, err := controller.RequestAndGet(req)
-	return resp.(DeleteTopicsResponse), err
+	if v, ok := resp.(DeleteTopicsResponse); ok {
+		return v, err
+	}
+	return r, err
 }
 
 // CreateTopic creates a single topic with specified parameters
-- 
2.43.0


From 865f0ae56fc6bcbd9f1918434736dc2c106a50a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:25 +0000
Subject: [PATCH 69/82] fix: a producer keeps its own copy of the key, and a
 null value stays null

---
 simple_producer.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/simple_producer.go b/simple_producer.go
index f07fd75..387fca4 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -139,15 +139,21 @@ func (p *SimpleProducer) AddMessage(key []byte, value []byte) error {
 		return ErrProducerClosed
 	}
 
-	valueCopy := make([]byte, len(value))
-	copy(valueCopy, value)
+	// nil and empty are different for kafka
+	var keyCopy, valueCopy []byte
+	if key != nil {
+		keyCopy = append([]byte{}, key...)
+	}
+	if value != nil {
+		valueCopy = append([]byte{}, value...)
+	}
 
 	record := Record{
 		attributes:     0x00, // compress in upper message set level
 		timestampDelta: 0,
 		offsetDelta:    0,
 
-		key:   key,
+		key:   keyCopy,
 		value: valueCopy,
 	}
 
-- 
2.43.0


From df3d0d8a4a2b2f5df01b57f185f12b99313bbd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:26 +0000
Subject: [PATCH 70/82] fix: adding the message that fills the buffer reports
 that the batch could not be sent

---
 simple_producer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_producer.go b/simple_producer.go
index 387fca4..3c6e3e5 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -161,7 +161,7 @@ func (p *SimpleProducer) AddMessage(key []byte, value []byte) error {
 	if len(p.records) >= p.config.MessageMaxCount {
 		records := p.records
 		p.records = make([]*Record, 0, p.config.MessageMaxCount)
-		p.flush(records)
+		return p.flush(records)
 	}
 	return nil
 }
-- 
2.43.0


From 24c1518b3c46a15c1017a4cac215323411acbb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:28 +0000
Subject: [PATCH 71/82] fix: messages sent when a producer is closed are not
 sent again by a later flush

---
 simple_producer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simple_producer.go b/simple_producer.go
index 3c6e3e5..f07c394 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -245,6 +245,7 @@ func (p *SimpleProducer) Close() {
 		logger.Info("flush before SimpleProducer close")
 		if len(p.records) > 0 {
 			p.flush(p.records)
+			p.records = nil
 		}
 
 		if p.parent == nil {
-- 
2.43.0


From 8d267b5c78125f7734d7178c753882f16f94273c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:29 +0000
Subject: [PATCH 72/82] fix: a message refused by closed producers is reported,
 not dropped

---
 producer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/producer.go b/producer.go
index a8cf18c..540922a 100644
--- a/producer.go
+++ b/producer.go
@@ -181,7 +181,7 @@ func (p *Producer) AddMessage(key []byte, value []byte) error {
 		}
 		return err
 	}
-	return nil
+	return ErrProducerClosed
 }
 
 // Close close all simple producers in the console producer
-- 
2.43.0


From 1446c59e2ce0d1b74b79947bb0f6b6c5254cff0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:31 +0000
Subject: [PATCH 73/82] fix: a closed producer refuses messages of any key, and
 concurrent adds share one producer per partition

---
 producer.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/producer.go b/producer.go
index 540922a..d56e44b 100644
--- a/producer.go
+++ b/producer.go
@@ -26,6 +26,7 @@ type Producer struct {
 	leaderBrokersMapping map[int32]*Broker
 	currentProducer      *SimpleProducer
 	lock                 sync.Mutex
+	closed               bool
 
 	ctx context.Context
 }
@@ -103,6 +104,10 @@ func (p *Producer) updateCurrentSimpleProducer() error {
 
 	p.lock.Lock()
 	defer p.lock.Unlock()
+	if p.closed {
+		sp.Close()
+		return nil
+	}
 	if p.currentProducer == nil {
 		logger.Info("init current simple producer", "leader", sp.leader)
 		p.currentProducer = sp
@@ -131,9 +136,12 @@ func (p *Producer) getLeaderID(pid int32) (int32, error) {
 
 // getSimpleProducer return the simple producer. if key is nil, return the current simple producer
 func (p *Producer) getSimpleProducer(key []byte) (*SimpleProducer, error) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
+	if p.closed {
+		return nil, ErrProducerClosed
+	}
 	if key == nil {
-		p.lock.Lock()
-		defer p.lock.Unlock()
 		return p.currentProducer, nil
 	}
 
@@ -186,6 +194,9 @@ func (p *Producer) AddMessage(key []byte, value []byte) error {
 
 // Close close all simple producers in the console producer
 func (p *Producer) Close() {
+	p.lock.Lock()
+	defer p.lock.Unlock()
+	p.closed = true
 	if p.currentProducer != nil {
 		p.currentProducer.Close()
 	}
-- 
2.43.0


From 41ec60039277340ae62c4fd1448815f25d68f9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:32 +0000
Subject: [PATCH 74/82] fix: a topic without available partitions is an error,
 not a panic, and keeps the metadata in use

---
 producer.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/producer.go b/producer.go
index d56e44b..785367f 100644
--- a/producer.go
+++ b/producer.go
@@ -88,14 +88,20 @@ func (p *Producer) updateCurrentSimpleProducer() error {
 	if err != nil {
 		return fmt.Errorf("get metadata of %s error: %w", p.topic, err)
 	}
-	p.topicMeta = metadataResponse.TopicMetadatas[0]
+	if len(metadataResponse.TopicMetadatas) == 0 {
+		return fmt.Errorf("no metadata of %s", p.topic)
+	}
+	topicMeta := metadataResponse.TopicMetadatas[0]
 
 	validPartitionID := make([]int32, 0)
-	for _, partition := range p.topicMeta.PartitionMetadatas {
+	for _, partition := range topicMeta.PartitionMetadatas {
 		if partition.PartitionErrorCode == 0 {
 			validPartitionID = append(validPartitionID, partition.PartitionID)
 		}
 	}
+	if len(validPartitionID) == 0 {
+		return fmt.Errorf("no available partition of %s", p.topic)
+	}
 	partitionID := validPartitionID[rand.Int31n(int32(len(validPartitionID)))]
 	sp, err := NewSimpleProducer(context.Background(), p.topic, partitionID, p.config)
 	if err != nil {
@@ -104,6 +110,7 @@ func (p *Producer) updateCurrentSimpleProducer() error {
 
 	p.lock.Lock()
 	defer p.lock.Unlock()
+	p.topicMeta = topicMeta
 	if p.closed {
 		sp.Close()
 		return nil
-- 
2.43.0


From f056fbe9128e9bef68e1bf88e6301bb152b2872e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:06 +0000
Subject: [PATCH 75/82] fix: keyed messages go to the current leader of their
 partition after it moved

---
 producer.go | 42 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/producer.go b/producer.go
index 785367f..c46c9cb 100644
--- a/producer.go
+++ b/producer.go
@@ -115,6 +115,7 @@ func (p *Producer) updateCurrentSimpleProducer() error {
 		sp.Close()
 		return nil
 	}
+	p.followLeaders()
 	if p.currentProducer == nil {
 		logger.Info("init current simple producer", "leader", sp.leader)
 		p.currentProducer = sp
@@ -141,6 +142,37 @@ func (p *Producer) getLeaderID(pid int32) (int32, error) {
 	return -1, fmt.Errorf("partition %s-%d not found in metadata", p.topic, pid)
 }
 
+// getLeaderBroker returns the broker of the leader from cache or creates a new one
+func (p *Producer) getLeaderBroker(leaderID int32) (*Broker, error) {
+	if broker, ok := p.leaderBrokersMapping[leaderID]; ok {
+		return broker, nil
+	}
+	broker, err := p.brokers.NewBroker(leaderID)
+	if err != nil {
+		return nil, fmt.Errorf("create broker %d error: %s", leaderID, err)
+	}
+	p.leaderBrokersMapping[leaderID] = broker
+	return broker, nil
+}
+
+// followLeaders makes the simple producers of keyed messages send to the current leaders of their partitions
+func (p *Producer) followLeaders() {
+	for pid, sp := range p.pidToSimpleProducers {
+		leaderID, err := p.getLeaderID(pid)
+		if err != nil {
+			continue
+		}
+		leader, err := p.getLeaderBroker(leaderID)
+		if err != nil {
+			logger.Error(err, "could not get leader", "topic", p.topic, "partitionID", pid)
+			continue
+		}
+		sp.lock.Lock()
+		sp.leader = leader
+		sp.lock.Unlock()
+	}
+}
+
 // getSimpleProducer return the simple producer. if key is nil, return the current simple producer
 func (p *Producer) getSimpleProducer(key []byte) (*SimpleProducer, error) {
 	p.lock.Lock()
@@ -162,13 +194,9 @@ func (p *Producer) getSimpleProducer(key []byte) (*SimpleProducer, error) {
 	if err != nil {
 		return nil, err
 	}
-	broker, ok := p.leaderBrokersMapping[leaderID]
-	if !ok {
-		broker, err = p.brokers.NewBroker(leaderID)
-		if err != nil {
-			return nil, fmt.Errorf("create broker %d error: %s", leaderID, err)
-		}
-		p.leaderBrokersMapping[leaderID] = broker
+	broker, err := p.getLeaderBroker(leaderID)
+	if err != nil {
+		return nil, err
 	}
 
 	ctx := context.WithValue(p.ctx, leaderKey, broker)
-- 
2.43.0


From 9b2d8cf27e7de04e8239f045b730884ff624968e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:24 +0000
Subject: [PATCH 76/82] fix: AddReplicaAssignment accepts the partitions in any
 order and overwrites the replicas of a known one

---
 create_topics_request.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/create_topics_request.go b/create_topics_request.go
index ee854e9..8627fbd 100644
--- a/create_topics_request.go
+++ b/create_topics_request.go
@@ -165,7 +165,6 @@ func (r *CreateTopicsRequest) AddTopic(topic string, partitions int32, replicati
 
 var (
 	errorTopicNotFound = errors.New("topic not found in the CreateTopicRequests")
-	errorPidOutOfRange = errors.New("partitionID in replica-assignment is out of range")
 )
 
 // AddReplicaAssignment add replicas of certain topic & pid to CreateTopicRequests. It returns errorTopicNotFound if topic has not beed added to the request;  it overwrite replicas if pid exists
@@ -185,10 +184,6 @@ func (r *CreateTopicsRequest) AddReplicaAssignment(topic string, pid int32, repl
 
 	found = false
 	for _, ra := range rr.ReplicaAssignments {
-		if ra.Partition >= pid {
-			return errorPidOutOfRange
-		}
-
 		if ra.Partition == pid {
 			found = true
 			ra.Replicas = replicas
-- 
2.43.0


From fb0568c8a14e20e42193430bbd15ad7afb1bc047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:25 +0000
Subject: [PATCH 77/82] fix: DescribeConfigs refuses a broker id that does not
 fit instead of asking another broker

---
 client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client.go b/client.go
index de14f02..c88dc4e 100644
--- a/client.go
+++ b/client.go
@@ -369,7 +369,7 @@ func (c *Client) DescribeConfigs(resourceType, resourceName string, keys []strin
 
 	var serverID int32
 	if resourceType == "broker" {
-		if brokerID, e := strconv.Atoi(resourceName); e != nil {
+		if brokerID, e := strconv.ParseInt(resourceName, 10, 32); e != nil {
 			return r, fmt.Errorf("broker id must be a number")
 		} else {
 			serverID = int32(brokerID)
-- 
2.43.0


From ecaad6b1d643c38f28fb1f024e79b27242b00611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:27 +0000
Subject: [PATCH 78/82] fix: DescribeConfigs asks the broker itself for the
 configuration of its loggers

---
 client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client.go b/client.go
index c88dc4e..0cefa8a 100644
--- a/client.go
+++ b/client.go
@@ -368,7 +368,7 @@ func (c *Client) DescribeConfigs(resourceType, resourceName string, keys []strin
 	req := NewDescribeConfigsRequest(c.clientID, resources)
 
 	var serverID int32
-	if resourceType == "broker" {
+	if resourceType == "broker" || resourceType == "broker_logger" {
 		if brokerID, e := strconv.ParseInt(resourceName, 10, 32); e != nil {
 			return r, fmt.Errorf("broker id must be a number")
 		} else {
-- 
2.43.0


From ef819d2492cb12826ec5a0d577cedd50d21f9422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:23 +0000
Subject: [PATCH 79/82] fix: look up the coordinator again when it has moved

A simple consumer with a group id kept committing to (and fetching its
committed offset from) the coordinator found at creation: after the
coordinator moved every commit failed with error 16 and fetching the
committed offset never ended.
---
 simple_consumer.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index df33c9c..76d06aa 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -143,6 +143,16 @@ func (c *SimpleConsumer) getCoordinator() error {
 	return nil
 }
 
+// refreshCoordinator looks up the coordinator again if err says that it has moved or is not available
+func (c *SimpleConsumer) refreshCoordinator(err error) {
+	if !errors.Is(err, KafkaError(15)) && !errors.Is(err, KafkaError(16)) {
+		return
+	}
+	if err := c.getCoordinator(); err != nil {
+		logger.Error(err, "failed to get coordinator", "GroupID", c.config.GroupID)
+	}
+}
+
 var (
 	errNoLeader = errors.New("not leader found")
 )
@@ -239,22 +249,20 @@ func (c *SimpleConsumer) getCommitedOffet() error {
 	r := NewOffsetFetchRequest(apiVersion, c.config.ClientID, c.config.GroupID)
 	r.AddPartiton(c.topic, c.partitionID)
 
-	var (
-		res         OffsetFetchResponse
-		coordinator *Broker
-	)
-
-	if c.belongTO != nil {
-		coordinator = c.belongTO.coordinator
-	} else {
-		coordinator = c.coordinator
-	}
+	var res OffsetFetchResponse
 
 	for {
+		coordinator := c.coordinator
+		if c.belongTO != nil {
+			coordinator = c.belongTO.coordinator
+		}
 		resp, err := coordinator.RequestAndGet(r)
 		if err != nil {
 			logger.Error(err, "failed to request fetch offset, sleep 500 ms", "topic", c.topic, "partitionID", c.partitionID)
 			time.Sleep(500 * time.Millisecond)
+			if c.belongTO == nil {
+				c.refreshCoordinator(err)
+			}
 			continue
 		}
 
@@ -323,6 +331,7 @@ func (c *SimpleConsumer) commitOffset(offset int64) bool {
 		return true
 	}
 	logger.Error(err, "commit offset failed", "GroupID", c.config.GroupID, "topic", c.topic, "partitionID", c.partitionID, "offset", offset)
+	c.refreshCoordinator(err)
 	return false
 }
 
-- 
2.43.0


From 2a64e61717a8090beb0b19abc2517f42e1a61d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:46 +0000
Subject: [PATCH 80/82] fix: consumer configs do not share the timeouts of each
 API, and a short list of them does not panic

---
 config.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/config.go b/config.go
index e2acd73..d956c12 100644
--- a/config.go
+++ b/config.go
@@ -133,9 +133,8 @@ func DefaultConsumerConfig() ConsumerConfig {
 }
 
 func (c *ConsumerConfig) resetTimeoutMSForEachAPI() {
-	if len(c.Net.TimeoutMSForEachAPI) == 0 {
-		c.Net.TimeoutMSForEachAPI = make([]int, 68)
-	}
+	// always a new slice: the old one may be shared with another config (defaultConsumerConfig, for example) or be too short
+	c.Net.TimeoutMSForEachAPI = make([]int, max(68, len(c.Net.TimeoutMSForEachAPI)))
 	for i := range c.Net.TimeoutMSForEachAPI {
 		c.Net.TimeoutMSForEachAPI[i] = c.Net.TimeoutMS
 	}
-- 
2.43.0


From 1069a9cae9311c5a87d6677e31d23742c8f1788e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:32 +0000
Subject: [PATCH 81/82] fix: report a SASL mechanism that is not supported
 instead of panicking

NewSaslAuthenticateRequest returns a request without a header for a mechanism
it does not know, and sending it dereferenced the nil header.
---
 broker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/broker.go b/broker.go
index af69717..349b5ca 100644
--- a/broker.go
+++ b/broker.go
@@ -175,6 +175,9 @@ func (broker *Broker) sendSaslAuthenticate() error {
 
 	// authenticate
 	saslAuthenticateRequest := NewSaslAuthenticateRequest(clientID, user, password, mechanism)
+	if saslAuthenticateRequest.RequestHeader == nil {
+		return fmt.Errorf("sasl mechanism %s is not supported", mechanism)
+	}
 	return broker.requestInInit(saslAuthenticateRequest)
 }
 
-- 
2.43.0


From 290acf2686006862d51ba3fdcfd2641c13e08645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:42 +0000
Subject: [PATCH 82/82] fix: close the connections opened only to ask for
 metadata

Every refresh of the metadata, and every bootstrap server that failed or is
known by another address, left a connection open that nobody could close.
---
 brokers.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/brokers.go b/brokers.go
index b3a1834..82d9167 100644
--- a/brokers.go
+++ b/brokers.go
@@ -50,6 +50,7 @@ func NewBrokersWithConfig(bootstrapServers string, config *BrokerConfig) (*Broke
 			brokers, err := newBrokersFromOne(broker, clientID, config)
 			if err != nil {
 				logger.Error(err, "could not create broker list", "address", broker)
+				broker.Close()
 			} else {
 				brokers.bootstrapServers = bootstrapServers
 				return brokers, nil
@@ -94,6 +95,10 @@ func newBrokersFromOne(broker *Broker, clientID string, config *BrokerConfig) (*
 		}
 	}
 
+	if len(brokers.brokers) == 0 {
+		broker.Close() // the cluster knows this broker by another address
+	}
+
 	for nodeID, broker := range brokers.brokersInfo {
 		logger.V(3).Info("brokers in cluster", "nodeID", nodeID, "host", broker.Host, "port", broker.Port)
 	}
@@ -123,9 +128,9 @@ func (brokers *Brokers) refreshMetadata() bool {
 		}
 
 		metadataResponse, err := broker.requestMetaData(clientID, topics)
+		broker.Close()
 		if len(metadataResponse.Brokers) == 0 {
 			logger.Info("no broker returned from metadata response")
-			broker.Close()
 			continue
 		}
 
@@ -152,6 +157,7 @@ func (brokers *Brokers) refreshMetadata() bool {
 		}
 
 		metadataResponse, err := broker.requestMetaData(clientID, topics)
+		broker.Close()
 		if len(metadataResponse.Brokers) == 0 {
 			logger.Info("no broker returned from metadata response")
 			continue
-- 
2.43.0


From b16a35447da9cb85e170d183549e74b28dcd629c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:03 +0000
Subject: [PATCH 01/59] fix: database: lookup must fall back to the less
 specific network

The recursive search reported success even if nothing was found further
down the tree, so that a covering network was never considered when the
search ended below it. It also used bit 128 of the address for nodes at
the very bottom of the tree.
---
 src/database.c | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/database.c b/src/database.c
index 8bbbe79..60fc4d2 100644
--- a/src/database.c
+++ b/src/database.c
@@ -887,14 +887,18 @@ static int __loc_database_lookup(struct loc_database* db, const struct in6_addr*
 	if (!node_v1)
 		return 1;
 
-	// Follow the path
-	int bit = loc_address_get_bit(address, level);
-	loc_address_set_bit(network_address, level, bit);
-
-	if (bit == 0)
-		node_index = be32toh(node_v1->zero);
-	else
-		node_index = be32toh(node_v1->one);
+	// Follow the path (unless we have already used all bits of the address)
+	if (level < 128) {
+		int bit = loc_address_get_bit(address, level);
+		loc_address_set_bit(network_address, level, bit);
+
+		if (bit == 0)
+			node_index = be32toh(node_v1->zero);
+		else
+			node_index = be32toh(node_v1->one);
+	} else {
+		node_index = 0;
+	}
 
 	// If the node index is zero, the tree ends here
 	// and we cannot descend any further
@@ -923,13 +927,11 @@ static int __loc_database_lookup(struct loc_database* db, const struct in6_addr*
 
 	// If this node has a leaf, we will check if it matches
 	if (__loc_database_node_is_leaf(node_v1)) {
-		r = __loc_database_lookup_handle_leaf(db, address, network, network_address, level, node_v1);
-		if (r < 0)
-			return r;
+		return __loc_database_lookup_handle_leaf(db, address, network, network_address, level, node_v1);
 	}
 
-	// Return no error - even if nothing was found
-	return 0;
+	// Nothing was found
+	return 1;
 }
 
 LOC_EXPORT int loc_database_lookup(struct loc_database* db,
@@ -954,6 +956,10 @@ LOC_EXPORT int loc_database_lookup(struct loc_database* db,
 		(double)(end - start) / CLOCKS_PER_SEC * 1000);
 #endif
 
+	// It is not an error if nothing was found
+	if (r > 0)
+		r = 0;
+
 	return r;
 }
 
-- 
2.43.0


From 6589af47cd311f92e35f0d2acd14cc891eeac13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:40 +0000
Subject: [PATCH 02/59] fix: network-tree: do not use a network after it has
 been merged

Merging removes the network from the tree which might have held the last
reference to it.
---
 src/network-tree.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/network-tree.c b/src/network-tree.c
index 7096625..3000883 100644
--- a/src/network-tree.c
+++ b/src/network-tree.c
@@ -351,6 +351,9 @@ static int loc_network_tree_merge_step(struct loc_network* network, void* data)
 	struct loc_network* m = NULL;
 	int r;
 
+	// Fetch the prefix now because the network might be released by the merge
+	const unsigned int prefix = loc_network_prefix(network);
+
 	// How many networks do we have?
 	size_t i = loc_network_list_size(ctx->networks);
 
@@ -431,8 +434,6 @@ static int loc_network_tree_merge_step(struct loc_network* network, void* data)
 		n = NULL;
 	}
 
-	const unsigned int prefix = loc_network_prefix(network);
-
 	// Remove any networks that we cannot merge
 	loc_network_list_remove_with_prefix_smaller_than(ctx->networks, prefix);
 
-- 
2.43.0


From 1a8d18423bdbdfd447dbe4efbc808cb1cda975a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:40 +0000
Subject: [PATCH 03/59] fix: writer: write countries sorted and without stale
 data

Countries are found by binary search and therefore have to be sorted.
Countries without a continent inherited the one of the previous country
and all countries were leaked.
---
 src/writer.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/writer.c b/src/writer.c
index ec5f896..47ca2c2 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -526,6 +526,9 @@ static int loc_database_write_countries(struct loc_writer* writer,
 	DEBUG(writer->ctx, "Countries section starts at %jd bytes\n", (intmax_t)*offset);
 	header->countries_offset = htobe32(*offset);
 
+	// Sort the countries first
+	loc_country_list_sort(writer->country_list);
+
 	const size_t countries_count = loc_country_list_size(writer->country_list);
 
 	struct loc_database_country_v1 block;
@@ -533,6 +536,11 @@ static int loc_database_write_countries(struct loc_writer* writer,
 
 	for (unsigned int i = 0; i < countries_count; i++) {
 		struct loc_country* country = loc_country_list_get(writer->country_list, i);
+		if (!country)
+			return 1;
+
+		// Do not carry over anything from the previous country
+		memset(&block, 0, sizeof(block));
 
 		// Convert country into database format
 		loc_country_to_database_v1(country, writer->pool, &block);
@@ -540,6 +548,9 @@ static int loc_database_write_countries(struct loc_writer* writer,
 		// Write to disk
 		*offset += fwrite(&block, 1, sizeof(block), f);
 		block_length += sizeof(block);
+
+		// Unref country
+		loc_country_unref(country);
 	}
 
 	DEBUG(writer->ctx, "Countries section has a length of %zu bytes\n", block_length);
-- 
2.43.0


From 1f9033bf869a78ca6f752f95bf9caf6f8c9ba570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:40 +0000
Subject: [PATCH 04/59] fix: writer: do not write uninitialised memory into
 network records

---
 src/writer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer.c b/src/writer.c
index 47ca2c2..454b1cf 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -405,7 +405,7 @@ static int loc_database_write_networks(struct loc_writer* writer,
 	uint32_t index = 0;
 	uint32_t network_index = 0;
 
-	struct loc_database_network_v1 db_network;
+	struct loc_database_network_v1 db_network = { 0 };
 	struct loc_database_network_node_v1 db_node;
 
 	// Initialize queue for nodes
-- 
2.43.0


From f3780cd8c7f7077110883fee16701c8db9ec4ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:40 +0000
Subject: [PATCH 05/59] fix: database: boundary check must not wrap around

The check passed if an object is larger than the entire file.
---
 src/database.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/database.c b/src/database.c
index 60fc4d2..bec919d 100644
--- a/src/database.c
+++ b/src/database.c
@@ -152,7 +152,7 @@ static inline int __loc_database_check_boundaries(struct loc_database* db,
 	size_t offset = p - db->data;
 
 	// Return if everything is within the boundary
-	if (offset <= db->length - length)
+	if (length <= (size_t)db->length && offset <= db->length - length)
 		return 1;
 
 	DEBUG(db->ctx, "Database read check failed at %p for %zu byte(s)\n", p, length);
-- 
2.43.0


From 443a295375590e409e8c35965f7d549bebb82e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:40 +0000
Subject: [PATCH 06/59] fix: network: IPv6 networks that cover IPv4 addresses
 were read incorrectly

When walking through the tree, the address might still have bits set
that are not part of the network which made IPv6 networks shorter than
/96 look like IPv4 networks with an invalid prefix.
---
 src/network.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/network.c b/src/network.c
index 69306a9..c8634ff 100644
--- a/src/network.c
+++ b/src/network.c
@@ -663,11 +663,16 @@ int loc_network_new_from_database_v1(struct loc_ctx* ctx, struct loc_network** n
 		struct in6_addr* address, unsigned int prefix, const struct loc_database_network_v1* dbobj) {
 	char country_code[3] = "\0\0";
 
+	// Ignore any bits that are not part of the network (because the address might be
+	// an IPv4 address that is being searched for in an IPv6 network)
+	const struct in6_addr bitmask = loc_prefix_to_bitmask(prefix);
+	struct in6_addr first_address = loc_address_and(address, &bitmask);
+
 	// Adjust prefix for IPv4
-	if (IN6_IS_ADDR_V4MAPPED(address))
+	if (IN6_IS_ADDR_V4MAPPED(&first_address))
 		prefix -= 96;
 
-	int r = loc_network_new(ctx, network, address, prefix);
+	int r = loc_network_new(ctx, network, &first_address, prefix);
 	if (r) {
 		ERROR(ctx, "Could not allocate a new network: %m\n");
 		return r;
-- 
2.43.0


From 7c6cef291b9d05e3f6340b2490093816d85a7686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:40 +0000
Subject: [PATCH 07/59] fix: do not return or dereference invalid networks on
 broken databases

Networks with invalid properties were leaked and returned together with
the error, and the flattening enumerator dereferenced a NULL pointer if the
next network could not be read.
---
 src/database.c |  5 ++++-
 src/network.c  | 12 +++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/database.c b/src/database.c
index bec919d..73d66bc 100644
--- a/src/database.c
+++ b/src/database.c
@@ -1449,7 +1449,10 @@ static int __loc_database_enumerator_next_network_flattened(
 		// Fetch the next network in line
 		r = __loc_database_enumerator_next_network(enumerator, &subnet, 0);
 		if (r) {
-			loc_network_unref(subnet);
+			if (subnet)
+				loc_network_unref(subnet);
+			loc_network_unref(*network);
+			*network = NULL;
 			loc_network_list_clear(enumerator->subnets);
 
 			return r;
diff --git a/src/network.c b/src/network.c
index c8634ff..5482034 100644
--- a/src/network.c
+++ b/src/network.c
@@ -684,7 +684,7 @@ int loc_network_new_from_database_v1(struct loc_ctx* ctx, struct loc_network** n
 	r = loc_network_set_country_code(*network, country_code);
 	if (r) {
 		ERROR(ctx, "Could not set country code: %s\n", country_code);
-		return r;
+		goto ERROR;
 	}
 
 	// Import ASN
@@ -692,7 +692,7 @@ int loc_network_new_from_database_v1(struct loc_ctx* ctx, struct loc_network** n
 	r = loc_network_set_asn(*network, asn);
 	if (r) {
 		ERROR(ctx, "Could not set ASN: %d\n", asn);
-		return r;
+		goto ERROR;
 	}
 
 	// Import flags
@@ -700,10 +700,16 @@ int loc_network_new_from_database_v1(struct loc_ctx* ctx, struct loc_network** n
 	r = loc_network_set_flag(*network, flags);
 	if (r) {
 		ERROR(ctx, "Could not set flags: %d\n", flags);
-		return r;
+		goto ERROR;
 	}
 
 	return 0;
+
+ERROR:
+	loc_network_unref(*network);
+	*network = NULL;
+
+	return r;
 }
 
 static char* loc_network_reverse_pointer6(struct loc_network* network, const char* suffix) {
-- 
2.43.0


From 1e8c2b8fcf42d5da2332a5a4c6ab4254b99a1e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:40 +0000
Subject: [PATCH 08/59] fix: database: enumerator stack overflow

A tree that branches on every bit needs up to 257 elements on the stack,
but there was only space for 255 and one more has been written behind the
end of the array. Broken databases with an empty or too deep tree caused
memory to be accessed out of bounds, too.
---
 src/database.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/database.c b/src/database.c
index 73d66bc..ca245dd 100644
--- a/src/database.c
+++ b/src/database.c
@@ -96,7 +96,9 @@ struct loc_database {
 	struct loc_database_objects country_objects;
 };
 
-#define MAX_STACK_DEPTH 256
+// For each bit of the address, there can be two nodes on the stack - plus the root node.
+// The first element of the stack is never used.
+#define MAX_STACK_DEPTH (2 + 2 * 128)
 
 struct loc_node_stack {
 	off_t offset;
@@ -1117,8 +1119,8 @@ LOC_EXPORT int loc_database_enumerator_new(struct loc_database_enumerator** enum
 	// Flatten output?
 	e->flatten = (flags & LOC_DB_ENUMERATOR_FLAGS_FLATTEN);
 
-	// Initialise graph search
-	e->network_stack_depth = 1;
+	// Initialise graph search (there is nothing to search if there is no root node)
+	e->network_stack_depth = (db->network_node_objects.count > 0) ? 1 : 0;
 	e->networks_visited = calloc(db->network_node_objects.count, sizeof(*e->networks_visited));
 	if (!e->networks_visited) {
 		ERROR(db->ctx, "Could not allocated visited networks: %m\n");
@@ -1267,11 +1269,18 @@ static int loc_database_enumerator_stack_push_node(
 		return 0;
 
 	// Check if there is any space left on the stack
-	if (e->network_stack_depth >= MAX_STACK_DEPTH) {
+	if (e->network_stack_depth >= MAX_STACK_DEPTH - 1) {
 		ERROR(e->ctx, "Maximum stack size reached: %d\n", e->network_stack_depth);
 		return 1;
 	}
 
+	// Check if the node is within the length of an address
+	if (depth > 128) {
+		ERROR(e->ctx, "The network tree is too deep\n");
+		errno = ERANGE;
+		return 1;
+	}
+
 	// Check if the node is in range
 	if (offset >= (off_t)e->db->network_node_objects.count) {
 		ERROR(e->ctx, "Trying to add invalid node with offset %jd/%zu\n",
-- 
2.43.0


From a1bafd7994a21dc1046041b87b4b0ff9e4f6e7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:40 +0000
Subject: [PATCH 09/59] fix: stringpool: strings longer than one block caused a
 heap overflow

---
 src/stringpool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stringpool.c b/src/stringpool.c
index 9986a61..2f2ba23 100644
--- a/src/stringpool.c
+++ b/src/stringpool.c
@@ -73,7 +73,7 @@ static off_t loc_stringpool_append(struct loc_stringpool* pool, const char* stri
 	const size_t length = strlen(string) + 1;
 
 	// Make sure we have enough space
-	if (pool->length + length > pool->size) {
+	while (pool->length + length > pool->size) {
 		int r = loc_stringpool_grow(pool, LOC_STRINGPOOL_BLOCK_SIZE);
 		if (r)
 			return r;
-- 
2.43.0


From 8032c4461bbcfff5ef88cef1b2f37af75c2eb098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:40 +0000
Subject: [PATCH 10/59] fix: stringpool: do not return strings that are not
 terminated

Otherwise, we would read beyond the end of the database.
---
 src/stringpool.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/stringpool.c b/src/stringpool.c
index 2f2ba23..85298e6 100644
--- a/src/stringpool.c
+++ b/src/stringpool.c
@@ -161,6 +161,12 @@ const char* loc_stringpool_get(struct loc_stringpool* pool, off_t offset) {
 		return NULL;
 	}
 
+	// Check if the string is terminated within the pool
+	if (!memchr(pool->data + offset, '\0', pool->length - offset)) {
+		errno = EFAULT;
+		return NULL;
+	}
+
 	// Return any data that we have in memory
 	return pool->data + offset;
 }
-- 
2.43.0


From 708c5b73c0bfc28b36c10d4acb0ddf96d4c0a4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:40 +0000
Subject: [PATCH 11/59] fix: database: a broken signature must not hide a valid
 one

If the first signature could not be parsed, the second one was never
checked.
---
 src/database.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/database.c b/src/database.c
index ca245dd..16eb252 100644
--- a/src/database.c
+++ b/src/database.c
@@ -661,8 +661,6 @@ LOC_EXPORT int loc_database_verify(struct loc_database* db, FILE* f) {
 		} else {
 			ERROR(db->ctx, "Error verifying the first signature: %s\n",
 				ERR_error_string(ERR_get_error(), NULL));
-			r = -1;
-			goto CLEANUP;
 		}
 	}
 
@@ -681,8 +679,6 @@ LOC_EXPORT int loc_database_verify(struct loc_database* db, FILE* f) {
 		} else {
 			ERROR(db->ctx, "Error verifying the second signature: %s\n",
 				ERR_error_string(ERR_get_error(), NULL));
-			r = -1;
-			goto CLEANUP;
 		}
 	}
 
-- 
2.43.0


From 55688b9ebeb77288b6ff33635aa43b9697794ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:57 +0000
Subject: [PATCH 12/59] fix: bogons: list exactly the gaps between the networks

Ranges were summarised using the common bits of the first and last address
so that the result covered addresses outside of the gap, and gaps of only one
address were not supported at all. Networks at the beginning or the end of
the address space were considered to be surrounded by a gap, single addresses
right after another network were ignored, and IPv6 gaps that bordered on the
IPv4 space failed.
---
 src/database.c       | 37 +++++++++++++++++++++++++++++------
 src/libloc/address.h | 10 ++++++++++
 src/network-list.c   | 46 +++++++++++++++++++++++++++++---------------
 3 files changed, 72 insertions(+), 21 deletions(-)

diff --git a/src/database.c b/src/database.c
index 16eb252..0f00354 100644
--- a/src/database.c
+++ b/src/database.c
@@ -141,6 +141,10 @@ struct loc_database_enumerator {
 	// For bogons
 	struct in6_addr gap6_start;
 	struct in6_addr gap4_start;
+
+	// Set once the last address of the family has been seen
+	int gap6_closed;
+	int gap4_closed;
 };
 
 /*
@@ -1560,6 +1564,7 @@ static int __loc_database_enumerator_next_bogon(
 
 	struct loc_network* network = NULL;
 	struct in6_addr* gap_start = NULL;
+	int* gap_closed = NULL;
 	struct in6_addr gap_end = IN6ADDR_ANY_INIT;
 
 	while (1) {
@@ -1590,10 +1595,12 @@ static int __loc_database_enumerator_next_bogon(
 		switch (family) {
 			case AF_INET6:
 				gap_start = &enumerator->gap6_start;
+				gap_closed = &enumerator->gap6_closed;
 				break;
 
 			case AF_INET:
 				gap_start = &enumerator->gap4_start;
+				gap_closed = &enumerator->gap4_closed;
 				break;
 
 			default:
@@ -1606,7 +1613,7 @@ static int __loc_database_enumerator_next_bogon(
 		const struct in6_addr* last_address = loc_network_get_last_address(network);
 
 		// Skip if this network is a subnet of a former one
-		if (loc_address_cmp(gap_start, last_address) >= 0) {
+		if (*gap_closed || loc_address_cmp(gap_start, last_address) > 0) {
 			loc_network_unref(network);
 			continue;
 		}
@@ -1615,8 +1622,16 @@ static int __loc_database_enumerator_next_bogon(
 		gap_end = *first_address;
 		loc_address_decrement(&gap_end);
 
+		// IPv6 gaps do not end in IPv4 space
+		if (family == AF_INET6 && IN6_IS_ADDR_V4MAPPED(&gap_end)) {
+			loc_address_reset(&gap_end, AF_INET);
+			gap_end.s6_addr[11]--;
+			memset(&gap_end.s6_addr[12], 0xff, 4);
+		}
+
 		// There is a gap
-		if (loc_address_cmp(gap_start, &gap_end) <= 0) {
+		if (loc_address_cmp(gap_start, first_address) < 0
+				&& loc_address_cmp(gap_start, &gap_end) <= 0) {
 			r = loc_network_list_summarize(enumerator->ctx,
 				gap_start, &gap_end, &enumerator->stack);
 			if (r) {
@@ -1625,9 +1640,19 @@ static int __loc_database_enumerator_next_bogon(
 			}
 		}
 
-		// The gap now starts after this network
+		// The gap now starts after this network (IPv6 gaps do not start in IPv4 space)
 		*gap_start = *last_address;
-		loc_address_increment(gap_start);
+		loc_address_next(gap_start);
+
+		if (family == AF_INET6 && IN6_IS_ADDR_V4MAPPED(gap_start)) {
+			loc_address_reset_last(gap_start, AF_INET);
+			loc_address_next(gap_start);
+		}
+
+		// There are no further gaps if this was the end of the address space
+		if (loc_address_cmp(gap_start, last_address) <= 0
+				|| loc_address_family(gap_start) != family)
+			*gap_closed = 1;
 
 		loc_network_unref(network);
 
@@ -1640,7 +1665,7 @@ static int __loc_database_enumerator_next_bogon(
 	return 0;
 
 FINISH:
-	if (!loc_address_all_zeroes(&enumerator->gap6_start)) {
+	if (!enumerator->gap6_closed && !loc_address_all_zeroes(&enumerator->gap6_start)) {
 		r = loc_address_reset_last(&gap_end, AF_INET6);
 		if (r)
 			return r;
@@ -1656,7 +1681,7 @@ FINISH:
 		loc_address_reset(&enumerator->gap6_start, AF_INET6);
 	}
 
-	if (!loc_address_all_zeroes(&enumerator->gap4_start)) {
+	if (!enumerator->gap4_closed && !loc_address_all_zeroes(&enumerator->gap4_start)) {
 		r = loc_address_reset_last(&gap_end, AF_INET);
 		if (r)
 			return r;
diff --git a/src/libloc/address.h b/src/libloc/address.h
index 082c33f..c504413 100644
--- a/src/libloc/address.h
+++ b/src/libloc/address.h
@@ -296,6 +296,16 @@ static inline void loc_address_increment(struct in6_addr* address) {
 	}
 }
 
+/*
+	Moves on to the next address no matter which family it belongs to
+*/
+static inline void loc_address_next(struct in6_addr* address) {
+	for (int octet = 15; octet >= 0; octet--) {
+		if (++address->s6_addr[octet])
+			break;
+	}
+}
+
 static inline void loc_address_decrement(struct in6_addr* address) {
 	// Prevent underflow when everything is ones
 	if (loc_address_all_zeroes(address))
diff --git a/src/network-list.c b/src/network-list.c
index d35bf56..58b4fd2 100644
--- a/src/network-list.c
+++ b/src/network-list.c
@@ -322,7 +322,9 @@ LOC_EXPORT int loc_network_list_merge(
 
 int loc_network_list_summarize(struct loc_ctx* ctx,
 		const struct in6_addr* first, const struct in6_addr* last, struct loc_network_list** list) {
-	int bits;
+	struct in6_addr bitmask;
+	struct in6_addr end;
+	unsigned int bits;
 	int r;
 
 	if (!list) {
@@ -343,28 +345,41 @@ int loc_network_list_summarize(struct loc_ctx* ctx,
 	}
 
 	// Check if the last address is larger than the first address
-	if (loc_address_cmp(first, last) >= 0) {
-		ERROR(ctx, "The first address must be smaller than the last address\n");
+	if (loc_address_cmp(first, last) > 0) {
+		ERROR(ctx, "The first address must not be larger than the last address\n");
 		errno = EINVAL;
 		return 1;
 	}
 
+	// All IPv4 addresses are mapped into IPv6
+	const unsigned int offset = (family1 == AF_INET) ? 96 : 0;
+
 	struct loc_network* network = NULL;
 	struct in6_addr start = *first;
 
 	while (loc_address_cmp(&start, last) <= 0) {
-		// Count how many leading bits the IP addresses have in common
-		bits = loc_address_common_bits(&start, last);
-		if (bits < 0)
-			return bits;
+		// Skip all IPv4 addresses if this range is an IPv6 range
+		if (family1 == AF_INET6 && IN6_IS_ADDR_V4MAPPED(&start)) {
+			loc_address_reset_last(&start, AF_INET);
+			loc_address_next(&start);
+			continue;
+		}
 
-		// If the start and end address don't have any bits in common, we try
-		// to cut the subnet into halves and try again...
-		else if (bits == 0)
-			bits = 1;
+		// Find the largest network that starts at this address,
+		// but does not contain anything after the last address
+		for (bits = 128; bits > offset; bits--) {
+			if (loc_address_get_bit(&start, bits - 1))
+				break;
+
+			bitmask = loc_prefix_to_bitmask(bits - 1);
+			end = loc_address_or(&start, &bitmask);
+
+			if (loc_address_cmp(&end, last) > 0)
+				break;
+		}
 
 		// Create a network
-		r = loc_network_new(ctx, &network, &start, bits);
+		r = loc_network_new(ctx, &network, &start, bits - offset);
 		if (r)
 			return r;
 
@@ -383,12 +398,13 @@ int loc_network_list_summarize(struct loc_ctx* ctx,
 
 		// The next network starts right after this one
 		start = *loc_network_get_last_address(network);
+		loc_network_unref(network);
 
-		// If we have reached the end of possible IP addresses, we stop
-		if (loc_address_all_ones(&start))
+		// If we have reached the end, we stop
+		if (loc_address_cmp(&start, last) >= 0)
 			break;
 
-		loc_address_increment(&start);
+		loc_address_next(&start);
 	}
 
 	return 0;
-- 
2.43.0


From 6b7c87d99ce2039940a3760339fe968b514b8cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:57 +0000
Subject: [PATCH 13/59] fix: network: splitting IPv6 networks next to the IPv4
 address space failed

---
 src/network.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/network.c b/src/network.c
index 5482034..3e3d4a2 100644
--- a/src/network.c
+++ b/src/network.c
@@ -353,12 +353,19 @@ LOC_EXPORT int loc_network_subnets(struct loc_network* network,
 
 	// The next subnet starts after the first one
 	struct in6_addr first_address = (*subnet1)->last_address;
-	loc_address_increment(&first_address);
+	loc_address_next(&first_address);
+
+	// The second half might be the entire IPv4 address space
+	if (network->family == AF_INET6 && IN6_IS_ADDR_V4MAPPED(&first_address))
+		prefix -= 96;
 
 	// Create the second half of the network
 	r = loc_network_new(network->ctx, subnet2, &first_address, prefix);
-	if (r)
+	if (r) {
+		loc_network_unref(*subnet1);
+		*subnet1 = NULL;
 		return r;
+	}
 
 	// Copy country code
 	const char* country_code = loc_network_get_country_code(network);
-- 
2.43.0


From 62b4233c67a451ba4a3e407f27c7c93d7b0785e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:31 +0000
Subject: [PATCH 14/59] fix: address: refuse anything that is not a valid
 prefix

Empty prefixes and those with any other characters were accepted, prefixes
that exceed 32 bits were truncated, and the last digit of the prefix was cut
off for long addresses.
---
 src/address.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/address.c b/src/address.c
index d338243..a5e4eed 100644
--- a/src/address.c
+++ b/src/address.c
@@ -15,6 +15,7 @@
 */
 
 #include <arpa/inet.h>
+#include <ctype.h>
 #include <netinet/in.h>
 #include <stddef.h>
 #include <stdio.h>
@@ -76,10 +77,16 @@ int loc_address_parse(struct in6_addr* address, unsigned int* prefix, const char
 	}
 
 	// Copy the string into the buffer
-	r = snprintf(buffer, sizeof(buffer) - 1, "%s", string);
+	r = snprintf(buffer, sizeof(buffer), "%s", string);
 	if (r < 0)
 		return 1;
 
+	// The string is too long to be valid
+	if ((size_t)r >= sizeof(buffer)) {
+		errno = EINVAL;
+		return 1;
+	}
+
 	// Find /
 	char* p = strchr(buffer, '/');
 	if (p) {
@@ -143,14 +150,18 @@ int loc_address_parse(struct in6_addr* address, unsigned int* prefix, const char
 
 		// Parse the actual string
 		if (p) {
-			*prefix = strtol(p, NULL, 10);
+			char* end = NULL;
+
+			const unsigned long value = strtoul(p, &end, 10);
 
-			// Check if prefix is within bounds
-			if (*prefix > max_prefix) {
+			// Check if prefix is a number and within bounds
+			if (!isdigit((unsigned char)*p) || *end || value > max_prefix) {
 				errno = EINVAL;
 				return 1;
 			}
 
+			*prefix = value;
+
 		// If the string didn't contain a prefix, we set the maximum
 		} else {
 			*prefix = max_prefix;
-- 
2.43.0


From e73318879c6b9140e7b36d6adf18213959c6ac9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:31 +0000
Subject: [PATCH 15/59] fix: address: handle prefixes of IPv4-mapped IPv6
 addresses

Those were either refused, or interpreted as the prefix of an IPv4 network.
---
 src/address.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/address.c b/src/address.c
index a5e4eed..4aa440a 100644
--- a/src/address.c
+++ b/src/address.c
@@ -166,6 +166,19 @@ int loc_address_parse(struct in6_addr* address, unsigned int* prefix, const char
 		} else {
 			*prefix = max_prefix;
 		}
+
+		// IPv4 addresses in IPv6 notation come with an IPv6 prefix
+		if (family == AF_INET6 && IN6_IS_ADDR_V4MAPPED(address)) {
+			if (*prefix >= 96) {
+				*prefix -= 96;
+
+			// The network is larger than the entire IPv4 address space
+			} else {
+				const struct in6_addr bitmask = loc_prefix_to_bitmask(*prefix);
+
+				*address = loc_address_and(address, &bitmask);
+			}
+		}
 	}
 
 	return 0;
-- 
2.43.0


From a0e150e9737e8c657a29528e2277e97dad97c075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:31 +0000
Subject: [PATCH 16/59] fix: country: resetting the name left a dangling
 pointer

---
 src/country.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/country.c b/src/country.c
index 8152a89..2877c89 100644
--- a/src/country.c
+++ b/src/country.c
@@ -126,6 +126,8 @@ LOC_EXPORT int loc_country_set_name(struct loc_country* country, const char* nam
 	if (country->name)
 		free(country->name);
 
+	country->name = NULL;
+
 	if (name) {
 		country->name = strdup(name);
 
-- 
2.43.0


From 4e10a330283be8522fd0f6fd27ffb62830b46710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:31 +0000
Subject: [PATCH 17/59] fix: country: only match special country codes exactly

Anything that started with a special country code was considered to be that
code, and an empty country code matched networks with any flags.
---
 src/country.c | 2 +-
 src/network.c | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/country.c b/src/country.c
index 2877c89..4f59837 100644
--- a/src/country.c
+++ b/src/country.c
@@ -228,7 +228,7 @@ LOC_EXPORT int loc_country_special_code_to_flag(const char* cc) {
 	// Return flags for any known special country
 	for (const struct loc_special_country* country = loc_special_countries;
 			country->flags; country++) {
-		if (strncmp(country->code, cc, 2) == 0)
+		if (strcmp(country->code, cc) == 0)
 			return country->flags;
 	}
 
diff --git a/src/network.c b/src/network.c
index 3e3d4a2..1d708d1 100644
--- a/src/network.c
+++ b/src/network.c
@@ -222,6 +222,10 @@ LOC_EXPORT int loc_network_matches_country_code(struct loc_network* network, con
 	// Search for any special flags
 	const int flag = loc_country_special_code_to_flag(country_code);
 
+	// Invalid input
+	if (flag < 0)
+		return -EINVAL;
+
 	// If we found a flag, we will return whether it is set or not
 	if (flag)
 		return loc_network_has_flag(network, flag);
-- 
2.43.0


From 93f972541fbcf0b5ae99756ef34171aeb2d02c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:31 +0000
Subject: [PATCH 18/59] fix: address: counting the trailing zeroes of zero is
 undefined

---
 src/libloc/address.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/libloc/address.h b/src/libloc/address.h
index c504413..384a87c 100644
--- a/src/libloc/address.h
+++ b/src/libloc/address.h
@@ -144,11 +144,8 @@ static inline unsigned int loc_address_bit_length(const struct in6_addr* address
 	// Walk backwards until we find the first one
 	foreach_octet_in_address_reverse(octet, address) {
 		// Count all trailing zeroes
-		int trailing_zeroes = __builtin_ctz(address->s6_addr[octet]);
-
-		// We only have one byte
-		if (trailing_zeroes > 8)
-			trailing_zeroes = 8;
+		int trailing_zeroes = (address->s6_addr[octet])
+			? __builtin_ctz(address->s6_addr[octet]) : 8;
 
 		// Remove any trailing zeroes from the total length
 		bitlength -= trailing_zeroes;
-- 
2.43.0


From d4b2ab5c66b9981879b254d8f07b73652c00a920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:31 +0000
Subject: [PATCH 19/59] fix: network: reverse pointers leaked memory

---
 src/network.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/network.c b/src/network.c
index 1d708d1..11baf1b 100644
--- a/src/network.c
+++ b/src/network.c
@@ -725,6 +725,7 @@ ERROR:
 
 static char* loc_network_reverse_pointer6(struct loc_network* network, const char* suffix) {
 	char* buffer = NULL;
+	char* b = NULL;
 	int r;
 
 	unsigned int prefix = loc_network_prefix(network);
@@ -744,16 +745,22 @@ static char* loc_network_reverse_pointer6(struct loc_network* network, const cha
 		goto ERROR;
 
 	for (unsigned int i = 0; i < (prefix / 4); i++) {
-		r = asprintf(&buffer, "%x.%s", loc_address_get_nibble(&network->first_address, i), buffer);
+		r = asprintf(&b, "%x.%s", loc_address_get_nibble(&network->first_address, i), buffer);
 		if (r < 0)
 			goto ERROR;
+
+		free(buffer);
+		buffer = b;
 	}
 
 	// Add the asterisk
 	if (prefix < 128) {
-		r = asprintf(&buffer, "*.%s", buffer);
+		r = asprintf(&b, "*.%s", buffer);
 		if (r < 0)
 			goto ERROR;
+
+		free(buffer);
+		buffer = b;
 	}
 
 	return buffer;
-- 
2.43.0


From a8ce64a0ba7bb06e490c655113627c998e732e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:31 +0000
Subject: [PATCH 20/59] fix: database: setting the search string again leaked
 memory

---
 src/database.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/database.c b/src/database.c
index 0f00354..5856a0e 100644
--- a/src/database.c
+++ b/src/database.c
@@ -1167,6 +1167,9 @@ LOC_EXPORT struct loc_database_enumerator* loc_database_enumerator_unref(struct
 }
 
 LOC_EXPORT int loc_database_enumerator_set_string(struct loc_database_enumerator* enumerator, const char* string) {
+	if (enumerator->string)
+		free(enumerator->string);
+
 	enumerator->string = strdup(string);
 
 	// Make the string lowercase
-- 
2.43.0


From 76fc2071227a90d0cf81d1db0cf324e5ff86e0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:39 +0000
Subject: [PATCH 21/59] fix: python: accept and show all 32 bit ASNs

ASNs above 2^31 could not be used, or were shown as negative numbers, and
larger numbers were silently truncated when searching for networks.
---
 src/python/as.c       | 34 ++++++++++++++++++++++++++++------
 src/python/as.h       |  1 +
 src/python/database.c |  9 +++++++--
 src/python/writer.c   |  2 +-
 4 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/python/as.c b/src/python/as.c
index 2f4b26f..73f5c38 100644
--- a/src/python/as.c
+++ b/src/python/as.c
@@ -22,6 +22,26 @@
 #include "locationmodule.h"
 #include "as.h"
 
+/*
+	Converts a Python object into an ASN
+*/
+int PyObject_AsASN(PyObject* object, void* p) {
+	uint32_t* asn = p;
+
+	const long long number = PyLong_AsLongLong(object);
+	if (number == -1 && PyErr_Occurred())
+		return 0;
+
+	// Check if the ASN is within the valid range
+	if (number < 0 || number > UINT32_MAX) {
+		PyErr_Format(PyExc_ValueError, "Invalid ASN %lld", number);
+		return 0;
+	}
+
+	*asn = number;
+	return 1;
+}
+
 PyObject* new_as(PyTypeObject* type, struct loc_as* as) {
 	ASObject* self = (ASObject*)type->tp_alloc(type, 0);
 	if (self) {
@@ -47,13 +67,15 @@ static void AS_dealloc(ASObject* self) {
 static int AS_init(ASObject* self, PyObject* args, PyObject* kwargs) {
 	uint32_t number = 0;
 
-	if (!PyArg_ParseTuple(args, "i", &number))
+	if (!PyArg_ParseTuple(args, "O&", PyObject_AsASN, &number))
 		return -1;
 
 	// Create the AS object
 	int r = loc_as_new(loc_ctx, &self->as, number);
-	if (r)
+	if (r) {
+		PyErr_SetFromErrno(PyExc_OSError);
 		return -1;
+	}
 
 	return 0;
 }
@@ -63,9 +85,9 @@ static PyObject* AS_repr(ASObject* self) {
 	const char* name = loc_as_get_name(self->as);
 
 	if (name)
-		return PyUnicode_FromFormat("<AS %d (%s)>", number, name);
+		return PyUnicode_FromFormat("<AS %u (%s)>", number, name);
 
-	return PyUnicode_FromFormat("<AS %d>", number);
+	return PyUnicode_FromFormat("<AS %u>", number);
 }
 
 static PyObject* AS_str(ASObject* self) {
@@ -73,9 +95,9 @@ static PyObject* AS_str(ASObject* self) {
 	const char* name = loc_as_get_name(self->as);
 
 	if (name)
-		return PyUnicode_FromFormat("AS%d - %s", number, name);
+		return PyUnicode_FromFormat("AS%u - %s", number, name);
 
-	return PyUnicode_FromFormat("AS%d", number);
+	return PyUnicode_FromFormat("AS%u", number);
 }
 
 static PyObject* AS_get_number(ASObject* self) {
diff --git a/src/python/as.h b/src/python/as.h
index d7fe36a..165adc0 100644
--- a/src/python/as.h
+++ b/src/python/as.h
@@ -29,6 +29,7 @@ typedef struct {
 
 extern PyTypeObject ASType;
 
+int PyObject_AsASN(PyObject* object, void* p);
 PyObject* new_as(PyTypeObject* type, struct loc_as* as);
 
 #endif /* PYTHON_LOCATION_AS_H */
diff --git a/src/python/database.c b/src/python/database.c
index f84b003..6905a0a 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -143,7 +143,7 @@ static PyObject* Database_get_as(DatabaseObject* self, PyObject* args) {
 	struct loc_as* as = NULL;
 	uint32_t number = 0;
 
-	if (!PyArg_ParseTuple(args, "i", &number))
+	if (!PyArg_ParseTuple(args, "O&", PyObject_AsASN, &number))
 		return NULL;
 
 	// Try to retrieve the AS
@@ -393,7 +393,12 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 				return NULL;
 			}
 
-			unsigned long number = PyLong_AsLong(item);
+			uint32_t number = 0;
+
+			if (!PyObject_AsASN(item, &number)) {
+				loc_as_list_unref(asns);
+				return NULL;
+			}
 
 			struct loc_as* as;
 			r = loc_as_new(loc_ctx, &as, number);
diff --git a/src/python/writer.c b/src/python/writer.c
index 1c06384..bf5162c 100644
--- a/src/python/writer.c
+++ b/src/python/writer.c
@@ -149,7 +149,7 @@ static PyObject* Writer_add_as(WriterObject* self, PyObject* args) {
 	struct loc_as* as;
 	uint32_t number = 0;
 
-	if (!PyArg_ParseTuple(args, "i", &number))
+	if (!PyArg_ParseTuple(args, "O&", PyObject_AsASN, &number))
 		return NULL;
 
 	// Create AS object
-- 
2.43.0


From b7d933e7e9de9747610a7f74343be6eeaedd64ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:39 +0000
Subject: [PATCH 22/59] fix: python: fetching the name of an AS without a name
 crashed

---
 src/python/as.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/as.c b/src/python/as.c
index 73f5c38..51709c1 100644
--- a/src/python/as.c
+++ b/src/python/as.c
@@ -109,6 +109,10 @@ static PyObject* AS_get_number(ASObject* self) {
 static PyObject* AS_get_name(ASObject* self) {
 	const char* name = loc_as_get_name(self->as);
 
+	// Return None if no name has been set
+	if (!name)
+		Py_RETURN_NONE;
+
 	return PyUnicode_FromString(name);
 }
 
-- 
2.43.0


From 5cd694d7033d36550a598dad8872f293385462ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:49 +0000
Subject: [PATCH 23/59] fix: python: raise the right exceptions for invalid
 arguments

Invalid networks and country codes caused a SystemError because no exception
was set, and invalid IP addresses caused an OSError instead of ValueError.
---
 src/python/country.c  |  8 +++++++-
 src/python/database.c |  4 +++-
 src/python/writer.c   | 20 ++++++++++++--------
 3 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/python/country.c b/src/python/country.c
index 7114846..4f1f1bc 100644
--- a/src/python/country.c
+++ b/src/python/country.c
@@ -52,8 +52,14 @@ static int Country_init(CountryObject* self, PyObject* args, PyObject* kwargs) {
 
 	// Create the country object
 	int r = loc_country_new(loc_ctx, &self->country, country_code);
-	if (r)
+	if (r) {
+		if (errno == EINVAL)
+			PyErr_Format(PyExc_ValueError, "Invalid country code: %s", country_code);
+		else
+			PyErr_SetFromErrno(PyExc_OSError);
+
 		return -1;
+	}
 
 	return 0;
 }
diff --git a/src/python/database.c b/src/python/database.c
index 6905a0a..9583a21 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -213,9 +213,11 @@ static PyObject* Database_lookup(DatabaseObject* self, PyObject* args) {
 		switch (errno) {
 			case EINVAL:
 				PyErr_Format(PyExc_ValueError, "Invalid IP address: %s", address);
+				break;
 
 			default:
 				PyErr_SetFromErrno(PyExc_OSError);
+				break;
 		}
 
 		return NULL;
@@ -340,7 +342,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 			struct loc_country* country;
 			r = loc_country_new(loc_ctx, &country, country_code);
 			if (r) {
-				if (r == -EINVAL) {
+				if (errno == EINVAL) {
 					PyErr_Format(PyExc_ValueError, "Invalid country code: %s", country_code);
 				} else {
 					PyErr_SetString(PyExc_SystemError, "Could not create country");
diff --git a/src/python/writer.c b/src/python/writer.c
index bf5162c..4d7da64 100644
--- a/src/python/writer.c
+++ b/src/python/writer.c
@@ -173,14 +173,17 @@ static PyObject* Writer_add_country(WriterObject* self, PyObject* args) {
 	// Create country object
 	int r = loc_writer_add_country(self->writer, &country, country_code);
 	if (r) {
-		switch (r) {
-			case -EINVAL:
-				PyErr_SetString(PyExc_ValueError, "Invalid network");
+		switch (errno) {
+			case EINVAL:
+				PyErr_SetString(PyExc_ValueError, "Invalid country code");
 				break;
 
 			default:
-				return NULL;
+				PyErr_SetFromErrno(PyExc_OSError);
+				break;
 		}
+
+		return NULL;
 	}
 
 	PyObject* obj = new_country(&CountryType, country);
@@ -200,12 +203,13 @@ static PyObject* Writer_add_network(WriterObject* self, PyObject* args) {
 	int r = loc_writer_add_network(self->writer, &network, string);
 	if (r) {
 		switch (r) {
-			case -EINVAL:
-				PyErr_SetString(PyExc_ValueError, "Invalid network");
-				break;
-
 			case -EBUSY:
 				PyErr_SetString(PyExc_IndexError, "A network already exists here");
+				loc_network_unref(network);
+				break;
+
+			default:
+				PyErr_Format(PyExc_ValueError, "Invalid network: %s", string);
 				break;
 		}
 
-- 
2.43.0


From 2c890d895009c34cab4b2c73193b744442ec6b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:06 +0000
Subject: [PATCH 24/59] fix: export: the xt_geoip format could not be used

The tag is assigned in the constructor, which is not possible for a
property that has no setter. Every export raised AttributeError.
---
 src/python/location/export.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/python/location/export.py b/src/python/location/export.py
index 1d147b1..930923f 100644
--- a/src/python/location/export.py
+++ b/src/python/location/export.py
@@ -218,8 +218,7 @@ class XTGeoIPOutputWriter(OutputWriter):
 	"""
 	mode = "wb"
 
-	@property
-	def tag(self):
+	def _make_tag(self):
 		return self.name
 
 	@property
-- 
2.43.0


From 51b369001f1f8decd6f64a53fa5ea9bac8a3a0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:06 +0000
Subject: [PATCH 25/59] fix: export: include all networks of special country
 codes

A1, A2, A3 and XD only contained those networks that also belonged to
any of the other exported countries or ASes.
---
 src/python/location/export.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/python/location/export.py b/src/python/location/export.py
index 930923f..1c65207 100644
--- a/src/python/location/export.py
+++ b/src/python/location/export.py
@@ -260,9 +260,15 @@ class Exporter(object):
 				country_code for country_code in countries if not country_code in FLAGS.values()
 			]
 
+			# Collect all flags we need for the special country codes
+			flags = 0
+			for flag in FLAGS:
+				if FLAGS[flag] in countries:
+					flags |= flag
+
 			# Get all networks that match the family
 			networks = self.db.search_networks(family=family,
-				country_codes=country_codes, asns=asns, flatten=True)
+				country_codes=country_codes, asns=asns, flags=flags, flatten=True)
 
 			# Walk through all networks
 			for network in networks:
-- 
2.43.0


From af42b46293fb76e8b44c330c407a65fc4882e3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:06 +0000
Subject: [PATCH 26/59] fix: lua: fetching a country that does not exist
 crashed

---
 src/lua/database.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lua/database.c b/src/lua/database.c
index dfdb705..4fe7861 100644
--- a/src/lua/database.c
+++ b/src/lua/database.c
@@ -166,7 +166,7 @@ static int Database_get_country(lua_State* L) {
 
 	// Fetch the country
 	r = loc_database_get_country(self->db, &country, code);
-	if (r) {
+	if (r || !country) {
 		lua_pushnil(L);
 		return 1;
 	}
-- 
2.43.0


From e7ae26f0e3108189b95af92f9dd1af78acf18b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:06 +0000
Subject: [PATCH 27/59] fix: lua: large ASNs were shown as negative numbers

---
 src/lua/as.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lua/as.c b/src/lua/as.c
index 558fcbf..6cc1af7 100644
--- a/src/lua/as.c
+++ b/src/lua/as.c
@@ -15,6 +15,7 @@
 */
 
 #include <errno.h>
+#include <stdio.h>
 #include <string.h>
 #include <stdlib.h>
 
@@ -90,12 +91,16 @@ static int AS_tostring(lua_State* L) {
 
 	uint32_t number = loc_as_get_number(self->as);
 	const char* name = loc_as_get_name(self->as);
+	char buffer[16];
+
+	// Lua cannot format unsigned integers
+	snprintf(buffer, sizeof(buffer), "AS%u", number);
 
 	// Return string
 	if (name)
-		lua_pushfstring(L, "AS%d - %s", number, name);
+		lua_pushfstring(L, "%s - %s", buffer, name);
 	else
-		lua_pushfstring(L, "AS%d", number);
+		lua_pushstring(L, buffer);
 
 	return 1;
 }
-- 
2.43.0


From cd715250edc26e680a83abf0c5175353aa2acec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:06 +0000
Subject: [PATCH 28/59] fix: perl: fetching details of a country that does not
 exist crashed

---
 src/perl/Location.xs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/perl/Location.xs b/src/perl/Location.xs
index be6df14..064ccb5 100644
--- a/src/perl/Location.xs
+++ b/src/perl/Location.xs
@@ -267,12 +267,13 @@ get_country_name(db, ccode)
 		RETVAL = &PL_sv_undef;
 
 		// Lookup country code
-		struct loc_country *country;
+		struct loc_country *country = NULL;
 		int err = loc_database_get_country(db, &country, ccode);
-		if(!err) {
+		if(!err && country) {
 			// Extract the name for the given country code.
 			const char* country_name = loc_country_get_name(country);
-			RETVAL = newSVpv(country_name, strlen(country_name));
+			if (country_name)
+				RETVAL = newSVpv(country_name, strlen(country_name));
 
 			loc_country_unref(country);
 		}
@@ -289,12 +290,13 @@ get_continent_code(db, ccode)
 		RETVAL = &PL_sv_undef;
 
 		// Lookup country code
-		struct loc_country *country;
+		struct loc_country *country = NULL;
 		int err = loc_database_get_country(db, &country, ccode);
-		if(!err) {
+		if(!err && country) {
 			//Extract the continent code for the given country code.
 			const char* continent_code =  loc_country_get_continent_code(country);
-			RETVAL = newSVpv(continent_code, strlen(continent_code));
+			if (continent_code)
+				RETVAL = newSVpv(continent_code, strlen(continent_code));
 
 			loc_country_unref(country);
 		}
@@ -317,7 +319,8 @@ get_as_name(db, as_number)
 			// Get the name of the given AS number.
 			const char* as_name = loc_as_get_name(as);
 
-			RETVAL = newSVpv(as_name, strlen(as_name));
+			if (as_name)
+				RETVAL = newSVpv(as_name, strlen(as_name));
 
 			loc_as_unref(as);
 		}
-- 
2.43.0


From f527a55fe179e4cb7b307faa8f41aa42f41710a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:11 +0000
Subject: [PATCH 29/59] fix: downloader: discard what a broken mirror has sent

The file was truncated to the current position which does not remove
anything, or not at all, so that the data of the next mirror was
appended and a good database was refused.
---
 src/python/location/downloader.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/python/location/downloader.py b/src/python/location/downloader.py
index 3dffbc7..0ee1d6d 100644
--- a/src/python/location/downloader.py
+++ b/src/python/location/downloader.py
@@ -126,6 +126,10 @@ class Downloader(object):
 		with t:
 			# Try all mirrors
 			for mirror in self.mirrors:
+				# Throw away anything that has been downloaded from another mirror
+				t.seek(0)
+				t.truncate()
+
 				# Prepare HTTP request
 				req = self._make_request(url, baseurl=mirror, headers=headers)
 
@@ -161,16 +165,10 @@ class Downloader(object):
 					else:
 						log.warning("%s reported: %s" % (mirror, e))
 
-					# Throw away any downloaded content and try again
-					t.truncate()
-
 				else:
 					# Check if the downloaded database is recent
 					if not self._check_database(t, public_key, timestamp):
 						log.warning("Downloaded database is outdated. Trying next mirror...")
-
-						# Throw away the data and try again
-						t.truncate()
 						continue
 
 					# Make the file readable for everyone
-- 
2.43.0


From a5fac1240d5f3e435e41f44bfa2a1bce938bc234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:11 +0000
Subject: [PATCH 30/59] fix: downloader: try the next mirror if one is not
 available

Any connection problems or responses that are not a database at all
aborted the download although another mirror might be fine.
---
 src/python/location/downloader.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/python/location/downloader.py b/src/python/location/downloader.py
index 0ee1d6d..e659d66 100644
--- a/src/python/location/downloader.py
+++ b/src/python/location/downloader.py
@@ -17,6 +17,7 @@
 ###############################################################################
 
 import gzip
+import http.client
 import logging
 import lzma
 import os
@@ -152,7 +153,7 @@ class Downloader(object):
 					t.flush()
 
 				# Catch decompression errors
-				except lzma.LZMAError as e:
+				except (lzma.LZMAError, EOFError) as e:
 					log.warning("Could not decompress downloaded file: %s" % e)
 					continue
 
@@ -165,6 +166,10 @@ class Downloader(object):
 					else:
 						log.warning("%s reported: %s" % (mirror, e))
 
+				# Catch any connection problems
+				except (http.client.HTTPException, OSError) as e:
+					log.warning("Could not download from %s: %s" % (mirror, e))
+
 				else:
 					# Check if the downloaded database is recent
 					if not self._check_database(t, public_key, timestamp):
@@ -189,7 +194,13 @@ class Downloader(object):
 		"""
 		log.debug("Opening downloaded database at %s" % f.name)
 
-		db = Database(f.name)
+		try:
+			db = Database(f.name)
+
+		# This is not a database at all
+		except OSError as e:
+			log.error("Could not open downloaded database: %s" % e)
+			return False
 
 		# Database is not recent
 		if timestamp and db.created_at < timestamp:
-- 
2.43.0


From 29e867eea4629ce1a7c710af6c9c6ea87b5f8189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:11 +0000
Subject: [PATCH 31/59] fix: downloader: always remove the temporary file on
 errors

---
 src/python/location/downloader.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/python/location/downloader.py b/src/python/location/downloader.py
index e659d66..190bce6 100644
--- a/src/python/location/downloader.py
+++ b/src/python/location/downloader.py
@@ -124,6 +124,24 @@ class Downloader(object):
 			)
 
 		t = tempfile.NamedTemporaryFile(dir=tmpdir, delete=False)
+		try:
+			if self._download(t, url, headers, public_key, timestamp):
+				return t
+
+		# Delete the temporary file after something went wrong
+		except:
+			os.unlink(t.name)
+			raise
+
+		# Delete the temporary file after unsuccessful downloads
+		os.unlink(t.name)
+
+		raise FileNotFoundError(url)
+
+	def _download(self, t, url, headers, public_key, timestamp=None):
+		"""
+			Tries to download the database from all mirrors
+		"""
 		with t:
 			# Try all mirrors
 			for mirror in self.mirrors:
@@ -179,13 +197,10 @@ class Downloader(object):
 					# Make the file readable for everyone
 					os.chmod(t.name, stat.S_IRUSR|stat.S_IRGRP|stat.S_IROTH)
 
-					# Return temporary file
-					return t
+					# Success
+					return True
 
-		# Delete the temporary file after unsuccessful downloads
-		os.unlink(t.name)
-
-		raise FileNotFoundError(url)
+		return False
 
 	def _check_database(self, f, public_key, timestamp=None):
 		"""
-- 
2.43.0


From 4ec0b82569b26f7ce8ad91ba678ab21857552a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:21 +0000
Subject: [PATCH 32/59] fix: python: refuse text that cannot be converted
 instead of crashing

The attribute setters passed the NULL that PyUnicode_AsUTF8() returns
for such values on, and then to PyErr_Format().
---
 src/python/as.c             |  4 +++-
 src/python/country.c        |  8 ++++++--
 src/python/database.c       |  4 ++++
 src/python/locationmodule.c | 10 ++++++++++
 src/python/locationmodule.h |  8 ++++++++
 src/python/network.c        |  4 +++-
 src/python/writer.c         | 12 +++++++++---
 7 files changed, 43 insertions(+), 7 deletions(-)

diff --git a/src/python/as.c b/src/python/as.c
index 51709c1..0b2d292 100644
--- a/src/python/as.c
+++ b/src/python/as.c
@@ -117,7 +117,9 @@ static PyObject* AS_get_name(ASObject* self) {
 }
 
 static int AS_set_name(ASObject* self, PyObject* value) {
-	const char* name = PyUnicode_AsUTF8(value);
+	const char* name = PyObject_AsText(value);
+	if (!name)
+		return -1;
 
 	int r = loc_as_set_name(self->as, name);
 	if (r) {
diff --git a/src/python/country.c b/src/python/country.c
index 4f1f1bc..e9b80c5 100644
--- a/src/python/country.c
+++ b/src/python/country.c
@@ -95,7 +95,9 @@ static PyObject* Country_get_name(CountryObject* self) {
 }
 
 static int Country_set_name(CountryObject* self, PyObject* value) {
-	const char* name = PyUnicode_AsUTF8(value);
+	const char* name = PyObject_AsText(value);
+	if (!name)
+		return -1;
 
 	int r = loc_country_set_name(self->country, name);
 	if (r) {
@@ -116,7 +118,9 @@ static PyObject* Country_get_continent_code(CountryObject* self) {
 }
 
 static int Country_set_continent_code(CountryObject* self, PyObject* value) {
-	const char* code = PyUnicode_AsUTF8(value);
+	const char* code = PyObject_AsText(value);
+	if (!code)
+		return -1;
 
 	int r = loc_country_set_continent_code(self->country, code);
 	if (r) {
diff --git a/src/python/database.c b/src/python/database.c
index 9583a21..f95d0d0 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -338,6 +338,10 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 			}
 
 			const char* country_code = PyUnicode_AsUTF8(item);
+			if (!country_code) {
+				loc_country_list_unref(countries);
+				return NULL;
+			}
 
 			struct loc_country* country;
 			r = loc_country_new(loc_ctx, &country, country_code);
diff --git a/src/python/locationmodule.c b/src/python/locationmodule.c
index 45c7bd8..68259a3 100644
--- a/src/python/locationmodule.c
+++ b/src/python/locationmodule.c
@@ -38,6 +38,16 @@ static void location_free(void) {
 		loc_unref(loc_ctx);
 }
 
+const char* PyObject_AsText(PyObject* value) {
+	// The attribute is being deleted
+	if (!value) {
+		PyErr_SetString(PyExc_TypeError, "Cannot delete this attribute");
+		return NULL;
+	}
+
+	return PyUnicode_AsUTF8(value);
+}
+
 static PyObject* set_log_level(PyObject* m, PyObject* args) {
 	int priority = LOG_INFO;
 
diff --git a/src/python/locationmodule.h b/src/python/locationmodule.h
index e267986..d71d9ee 100644
--- a/src/python/locationmodule.h
+++ b/src/python/locationmodule.h
@@ -17,8 +17,16 @@
 #ifndef PYTHON_LOCATION_MODULE_H
 #define PYTHON_LOCATION_MODULE_H
 
+#include <Python.h>
+
 #include <libloc/libloc.h>
 
 extern struct loc_ctx* loc_ctx;
 
+/*
+	Returns the text an attribute is being set to, or NULL with
+	an exception set if it is none (or if the attribute is being deleted).
+*/
+const char* PyObject_AsText(PyObject* value);
+
 #endif /* PYTHON_LOCATION_MODULE_H */
diff --git a/src/python/network.c b/src/python/network.c
index 4bae918..4dac35a 100644
--- a/src/python/network.c
+++ b/src/python/network.c
@@ -102,7 +102,9 @@ static PyObject* Network_get_country_code(NetworkObject* self) {
 }
 
 static int Network_set_country_code(NetworkObject* self, PyObject* value) {
-	const char* country_code = PyUnicode_AsUTF8(value);
+	const char* country_code = PyObject_AsText(value);
+	if (!country_code)
+		return -1;
 
 	int r = loc_network_set_country_code(self->network, country_code);
 	if (r) {
diff --git a/src/python/writer.c b/src/python/writer.c
index 4d7da64..b22c9ce 100644
--- a/src/python/writer.c
+++ b/src/python/writer.c
@@ -98,7 +98,9 @@ static PyObject* Writer_get_vendor(WriterObject* self) {
 }
 
 static int Writer_set_vendor(WriterObject* self, PyObject* value) {
-	const char* vendor = PyUnicode_AsUTF8(value);
+	const char* vendor = PyObject_AsText(value);
+	if (!vendor)
+		return -1;
 
 	int r = loc_writer_set_vendor(self->writer, vendor);
 	if (r) {
@@ -116,7 +118,9 @@ static PyObject* Writer_get_description(WriterObject* self) {
 }
 
 static int Writer_set_description(WriterObject* self, PyObject* value) {
-	const char* description = PyUnicode_AsUTF8(value);
+	const char* description = PyObject_AsText(value);
+	if (!description)
+		return -1;
 
 	int r = loc_writer_set_description(self->writer, description);
 	if (r) {
@@ -134,7 +138,9 @@ static PyObject* Writer_get_license(WriterObject* self) {
 }
 
 static int Writer_set_license(WriterObject* self, PyObject* value) {
-	const char* license = PyUnicode_AsUTF8(value);
+	const char* license = PyObject_AsText(value);
+	if (!license)
+		return -1;
 
 	int r = loc_writer_set_license(self->writer, license);
 	if (r) {
-- 
2.43.0


From 3845ed619ddf45b89acd4238b467052d4a11c7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:56 +0000
Subject: [PATCH 33/59] fix: python: both ends of a network are of the
 network's family

The last address of an IPv6 network such as ::8000:0:0/81 was
returned as the four bytes of an IPv4 address.
---
 src/python/network.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/python/network.c b/src/python/network.c
index 4dac35a..a8801d9 100644
--- a/src/python/network.c
+++ b/src/python/network.c
@@ -218,11 +218,11 @@ static PyObject* Network_get_first_address(NetworkObject* self) {
 	return PyUnicode_FromString(address);
 }
 
-static PyObject* PyBytes_FromAddress(const struct in6_addr* address6) {
+static PyObject* PyBytes_FromAddress(struct loc_network* network, const struct in6_addr* address6) {
 	struct in_addr address4;
 
-	// Convert IPv4 addresses to struct in_addr
-	if (IN6_IS_ADDR_V4MAPPED(address6)) {
+	// Convert addresses of IPv4 networks to struct in_addr
+	if (loc_network_address_family(network) == AF_INET) {
 		address4.s_addr = address6->s6_addr32[3];
 
 		return PyBytes_FromStringAndSize((const char*)&address4, sizeof(address4));
@@ -235,7 +235,7 @@ static PyObject* PyBytes_FromAddress(const struct in6_addr* address6) {
 static PyObject* Network_get__first_address(NetworkObject* self) {
 	const struct in6_addr* address = loc_network_get_first_address(self->network);
 
-	return PyBytes_FromAddress(address);
+	return PyBytes_FromAddress(self->network, address);
 }
 
 static PyObject* Network_get_last_address(NetworkObject* self) {
@@ -247,7 +247,7 @@ static PyObject* Network_get_last_address(NetworkObject* self) {
 static PyObject* Network_get__last_address(NetworkObject* self) {
 	const struct in6_addr* address = loc_network_get_last_address(self->network);
 
-	return PyBytes_FromAddress(address);
+	return PyBytes_FromAddress(self->network, address);
 }
 
 static PyObject* Network_richcompare(NetworkObject* self, PyObject* other, int op) {
-- 
2.43.0


From 209937dce245a30971385830c160df727e737c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:56 +0000
Subject: [PATCH 34/59] fix: writer: Report failed writes instead of claiming
 success

Writing to a full or broken medium was either reported as success or
never returned at all when padding to the next page.
---
 src/writer.c | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/writer.c b/src/writer.c
index 454b1cf..6cfb116 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -282,8 +282,13 @@ static void make_magic(struct loc_writer* writer, struct loc_database_magic* mag
 
 static void align_page_boundary(off_t* offset, FILE* f) {
 	// Move to next page boundary
-	while (*offset % LOC_DATABASE_PAGE_SIZE > 0)
-		*offset += fwrite("", 1, 1, f);
+	while (*offset % LOC_DATABASE_PAGE_SIZE > 0) {
+		// Give up if we cannot write, the error will be noticed later
+		if (fwrite("", 1, 1, f) < 1)
+			break;
+
+		*offset += 1;
+	}
 }
 
 static int loc_database_write_pool(struct loc_writer* writer,
@@ -696,6 +701,9 @@ LOC_EXPORT int loc_writer_write(struct loc_writer* writer, FILE* f, enum loc_dat
 	int r;
 	off_t offset = 0;
 
+	// Forget about any previous errors
+	clearerr(f);
+
 	// Start writing at the beginning of the file
 	r = fseek(f, 0, SEEK_SET);
 	if (r)
@@ -734,6 +742,13 @@ LOC_EXPORT int loc_writer_write(struct loc_writer* writer, FILE* f, enum loc_dat
 	if (r)
 		return r;
 
+	// Make sure that everything has been written so far
+	r = fflush(f);
+	if (r || ferror(f)) {
+		ERROR(writer->ctx, "Could not write database: %s\n", strerror(errno));
+		return -1;
+	}
+
 	// Create the signatures
 	if (writer->private_key1) {
 		DEBUG(writer->ctx, "Creating signature with first private key\n");
@@ -782,7 +797,7 @@ LOC_EXPORT int loc_writer_write(struct loc_writer* writer, FILE* f, enum loc_dat
 	bytes_written = fwrite(&header, 1, sizeof(header), f);
 	if (bytes_written < sizeof(header)) {
 		ERROR(writer->ctx, "Could not write header: %s\n", strerror(errno));
-		return r;
+		return -1;
 	}
 
 	// Seek back to the end
@@ -791,7 +806,11 @@ LOC_EXPORT int loc_writer_write(struct loc_writer* writer, FILE* f, enum loc_dat
 		return r;
 
 	// Flush everything
-	fflush(f);
+	r = fflush(f);
+	if (r || ferror(f)) {
+		ERROR(writer->ctx, "Could not write database: %s\n", strerror(errno));
+		return -1;
+	}
 
-	return r;
+	return 0;
 }
-- 
2.43.0


From 5014e18e20ba910459cb52a3d25e0caa7a48530a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:56 +0000
Subject: [PATCH 35/59] fix: resolv: Do not write beyond the end of the DNS
 reply

If the TXT record filled the whole buffer, it was terminated one byte
after the end of it.
---
 src/resolv.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/resolv.c b/src/resolv.c
index 1c4cd75..f95bf7a 100644
--- a/src/resolv.c
+++ b/src/resolv.c
@@ -56,13 +56,14 @@ LOC_EXPORT int loc_discover_latest_version(struct loc_ctx* ctx,
     char domain[64];
     snprintf(domain, 63, LOC_DATABASE_DOMAIN, version);
 
-    unsigned char answer[PACKETSZ];
+    // Leave space for the terminating NULL-byte
+    unsigned char answer[PACKETSZ + 1];
     int len;
 
     DEBUG(ctx, "Querying %s\n", domain);
 
     // Send a query
-    if ((len = res_query(domain, C_IN, T_TXT, answer, sizeof(answer))) < 0 || len > PACKETSZ) {
+    if ((len = res_query(domain, C_IN, T_TXT, answer, PACKETSZ)) < 0 || len > PACKETSZ) {
         ERROR(ctx, "Could not query %s: \n", domain);
 
         return -1;
-- 
2.43.0


From a1bb5d199180294b68c1e8a4bee10b397227c252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:41 +0000
Subject: [PATCH 36/59] fix: importer: Parse routes of BIRD protocols whose
 names start with AS

---
 src/scripts/location-importer.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 3e651b4..d25340d 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1651,7 +1651,7 @@ class CLI(object):
 
 	async def _handle_update_announcements_from_bird(self, server):
 		# Pre-compile the regular expression for faster searching
-		route = re.compile(b"^\s(.+?)\s+.+?\[(?:AS(.*?))?.\]$")
+		route = re.compile(b"^\s(.+?)\s+.+?\[(?:AS(\d+))?.\]$")
 
 		log.info("Requesting routing table from Bird (%s)" % server)
 
-- 
2.43.0


From 134ae43e47b77901eb2cf4c8bd69a998ca478e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:41 +0000
Subject: [PATCH 37/59] fix: importer: Store 32 bit AS numbers

Anything from AS2147483648 does not fit into an integer and made the
entire import, or writing the database, fail.
---
 src/scripts/location-importer.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index d25340d..e1d0c5a 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -379,7 +379,7 @@ class CLI(object):
 				n
 			(
 				network               inet NOT NULL,
-				autnum                integer,
+				autnum                bigint,
 				country               text,
 				is_anonymous_proxy    boolean,
 				is_satellite_provider boolean,
@@ -914,7 +914,7 @@ class CLI(object):
 
 			# Create some temporary tables to store parsed data
 			self.db.execute("""
-				CREATE TEMPORARY TABLE _autnums(number integer NOT NULL,
+				CREATE TEMPORARY TABLE _autnums(number bigint NOT NULL,
 					organization text NOT NULL, source text NOT NULL) ON COMMIT DROP;
 				CREATE UNIQUE INDEX _autnums_number ON _autnums(number);
 
-- 
2.43.0


From 43c510211d8fce746487cda33b4a8aedd474e8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:41 +0000
Subject: [PATCH 38/59] fix: importer: Fix typo that made the AWS import fail
 on invalid prefixes

---
 src/scripts/location-importer.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index e1d0c5a..6e33daf 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -2281,7 +2281,7 @@ class CLI(object):
 			# Parse the network
 			try:
 				network = ipaddress.ip_network(network)
-			except ValuleError as e:
+			except ValueError as e:
 				log.warning("%s: Unable to parse prefix %s" % (name, network))
 				continue
 
-- 
2.43.0


From af818fedd2a0c50384659548106fd8c7ac9aacc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:41 +0000
Subject: [PATCH 39/59] fix: importer: Skip objects with invalid networks

One malformed object made the import of the entire source fail.
---
 src/scripts/location-importer.in | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 6e33daf..9ffda92 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1337,6 +1337,11 @@ class CLI(object):
 						start_address = start_address.split("/")
 						ldigits = start_address[0].count(".")
 
+						# There must be exactly one prefix
+						if not len(start_address) == 2:
+							log.warning("Could not parse line in LACNIC DB format: %s" % line)
+							return
+
 						# How many octets do we need to add?
 						# (LACNIC does not seem to have a /8 or greater assigned, so the following should suffice.)
 						if ldigits == 1:
@@ -1366,10 +1371,18 @@ class CLI(object):
 						log.warning("Could not parse line: %s" % line)
 						return
 
-				inetnum["inetnum"] = list(ipaddress.summarize_address_range(start_address, end_address))
+				try:
+					inetnum["inetnum"] = list(ipaddress.summarize_address_range(start_address, end_address))
+				except (TypeError, ValueError) as e:
+					log.warning("Invalid address range: %s: %s" % (line, e))
+					return
 
 			elif key == "inet6num":
-				inetnum[key] = [ipaddress.ip_network(val, strict=False)]
+				try:
+					inetnum[key] = [ipaddress.ip_network(val, strict=False)]
+				except ValueError:
+					log.warning("Could not parse line: %s" % line)
+					return
 
 			elif key == "country":
 				cc = val.upper()
-- 
2.43.0


From e19d9f317ce299b5becf891cddf7c62fdd0b2b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:41 +0000
Subject: [PATCH 40/59] fix: importer: Skip organisations without a name

Those violate the constraints of the table they are being inserted into
and made the import of the entire source fail.
---
 src/scripts/location-importer.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 9ffda92..d4bd82f 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1498,8 +1498,8 @@ class CLI(object):
 			elif key == "org-name":
 				org[key] = val
 
-		# Skip empty objects
-		if not org:
+		# Skip empty objects and those that do not have a name
+		if not "organisation" in org or not "org-name" in org:
 			return
 
 		self.db.execute("INSERT INTO _organizations(handle, name, source) \
-- 
2.43.0


From e3b395915c939d30e0570ff5adb8301b6916fe90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:41 +0000
Subject: [PATCH 41/59] fix: importer: Skip lines with invalid AS numbers from
 ARIN

---
 src/scripts/location-importer.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index d4bd82f..cd7d29d 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1120,13 +1120,13 @@ class CLI(object):
 			# Cast to a number
 			try:
 				first_asn = int(first_asn)
-			except TypeError as e:
+			except (TypeError, ValueError) as e:
 				log.warning("Could not parse ASN '%s'" % first_asn)
 				continue
 
 			try:
 				last_asn = int(last_asn)
-			except TypeError as e:
+			except (TypeError, ValueError) as e:
 				log.warning("Could not parse ASN '%s'" % last_asn)
 				continue
 
-- 
2.43.0


From bac88c3afa50878acd7bfa2c67282d8c70acd6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:24 +0000
Subject: [PATCH 42/59] fix: importer: Import IPv4 delegations of any size

The extended format has a number of addresses which is not always a power of
two. Those were rounded, and a count of zero made the entire source fail.
---
 src/scripts/location-importer.in | 49 ++++++++++++++++----------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index cd7d29d..7c6db3f 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -26,7 +26,6 @@ import io
 import ipaddress
 import json
 import logging
-import math
 import re
 import socket
 import sys
@@ -1566,37 +1565,39 @@ class CLI(object):
 			log.warning("Invalid prefix: %s" % prefix)
 			return
 
-		# Fix prefix length for IPv4
-		if type == "ipv4":
-			prefix = 32 - int(math.log(prefix, 2))
-
 		# Try to parse the address
 		try:
-			network = ipaddress.ip_network("%s/%s" % (address, prefix), strict=False)
+			# For IPv4, this is the number of addresses, which does not have to be a power of two
+			if type == "ipv4":
+				address = ipaddress.IPv4Address(address)
+				networks = list(ipaddress.summarize_address_range(address, address + (prefix - 1)))
+			else:
+				networks = [ipaddress.ip_network("%s/%s" % (address, prefix), strict=False)]
 		except ValueError:
 			log.warning("Invalid IP address: %s" % address)
 			return
 
-		if not self._check_parsed_network(network):
-			return
+		for network in networks:
+			if not self._check_parsed_network(network):
+				continue
 
-		self.db.execute("""
-			INSERT INTO
-				networks
-			(
-				network,
-				country,
-				original_countries,
-				source
-			)
-			VALUES
-			(
-				%s, %s, %s, %s
+			self.db.execute("""
+				INSERT INTO
+					networks
+				(
+					network,
+					country,
+					original_countries,
+					source
+				)
+				VALUES
+				(
+					%s, %s, %s, %s
+				)
+				ON CONFLICT (network)
+					DO UPDATE SET country = excluded.country
+				""", "%s" % network, country_code, [country_code], source_key,
 			)
-			ON CONFLICT (network)
-				DO UPDATE SET country = excluded.country
-			""", "%s" % network, country_code, [country_code], source_key,
-		)
 
 	async def handle_update_announcements(self, ns):
 		server = ns.server[0]
-- 
2.43.0


From 9a00722f9f023ee5e284350687b608f00d970f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:24 +0000
Subject: [PATCH 43/59] fix: importer: A geofeed that cannot be read must not
 affect others

Connections which broke off, and broken compressed data terminated the
entire update.
---
 src/scripts/location-importer.in | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 7c6db3f..fdbed19 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -30,6 +30,7 @@ import re
 import socket
 import sys
 import urllib.error
+import zlib
 
 # Load our location module
 import location
@@ -1888,6 +1889,9 @@ class CLI(object):
 						timeout=10,
 					)
 
+					# Read the entire feed before we touch any previous data
+					lines = f.readlines()
+
 					# Remove any previous data
 					self.db.execute("DELETE FROM geofeed_networks \
 						WHERE geofeed_id = %s", geofeed.id)
@@ -1896,7 +1900,7 @@ class CLI(object):
 
 					# Read the output line by line
 					with self.db.pipeline():
-						for line in f:
+						for line in lines:
 							lineno += 1
 
 							try:
@@ -1987,7 +1991,7 @@ class CLI(object):
 							WHERE geofeed_id = %s", geofeed.id)
 
 				# Catch any other errors and connection timeouts
-				except (http.client.InvalidURL, urllib.request.URLError, TimeoutError) as e:
+				except (http.client.HTTPException, OSError, EOFError, UnicodeError, zlib.error) as e:
 					log.debug("Could not fetch URL %s: %s" % (geofeed.url, e))
 
 					self.db.execute("UPDATE geofeeds SET status = %s, error = %s \
-- 
2.43.0


From b7d2fe4f8b8bee0bd0dd896a5c1656ef4f2a5a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:24 +0000
Subject: [PATCH 44/59] fix: downloader: Do not accept incomplete responses

---
 src/python/location/downloader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/location/downloader.py b/src/python/location/downloader.py
index 190bce6..0ec4c0e 100644
--- a/src/python/location/downloader.py
+++ b/src/python/location/downloader.py
@@ -258,6 +258,10 @@ class Downloader(object):
 
 				t.write(buf)
 
+			# Check if we received everything
+			if getattr(f, "length", None):
+				raise http.client.IncompleteRead(b"", f.length)
+
 		# Rewind the temporary file
 		t.seek(0)
 
-- 
2.43.0


From 8d826c0265a2336b577f62678ee648f481e80a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:24 +0000
Subject: [PATCH 45/59] fix: importer: Do not wait forever for BIRD

The importer never returned when BIRD closed the connection, replied with an
error or sent an empty line.
---
 src/scripts/location-importer.in | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index fdbed19..d4a14f8 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1749,14 +1749,18 @@ class CLI(object):
 
 		while True:
 			# Fill up the buffer
-			buffer += s.recv(4096)
+			data = s.recv(4096)
+			if not data:
+				raise ConnectionError("Bird closed the connection")
+
+			buffer += data
 
 			while True:
 				# Search for the next newline
 				pos = buffer.find(b"\n")
 
 				# If we cannot find one, we go back and read more data
-				if pos <= 0:
+				if pos < 0:
 					break
 
 				# Cut after the newline character
@@ -1779,6 +1783,11 @@ class CLI(object):
 					elif code == 1:
 						continue
 
+					# Runtime and parse errors end the output, too
+					elif code >= 8000:
+						log.debug("Bird reported an error: %s" % line)
+						return
+
 				# Otherwise return the line
 				yield line
 
-- 
2.43.0


From 1a6cd782c9b5370868c3f6b79dc08de7219cfc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:39 +0000
Subject: [PATCH 46/59] fix: importer: Skip AS numbers that do not exist

An AS number of more than 32 bits in any registry made writing the database
fail.
---
 src/scripts/location-importer.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index d4a14f8..2d0cd13 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1271,7 +1271,7 @@ class CLI(object):
 
 			if key == "aut-num":
 				m = re.match(r"^(AS|as)(\d+)", val)
-				if m:
+				if m and int(m.group(2)) <= 0xffffffff:
 					autnum["asn"] = m.group(2)
 
 			elif key == "org":
-- 
2.43.0


From 5f6c4a68149c31eba2e5a6878a98e162f6becece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:39 +0000
Subject: [PATCH 47/59] fix: importer: Do not fail because of single characters
 that cannot be decoded

---
 src/scripts/location-importer.in | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 2d0cd13..9d5f156 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1099,7 +1099,7 @@ class CLI(object):
 
 	async def _import_arin_as_names(self, source, countries, f, *args):
 		# Wrap the data to text
-		f = io.TextIOWrapper(f)
+		f = io.TextIOWrapper(f, encoding="utf-8", errors="replace")
 
 		# Walk through the file
 		for line in csv.DictReader(f, dialect="arin"):
@@ -2375,7 +2375,7 @@ class CLI(object):
 		# Walk through all lines
 		for line in f:
 			# Decode line
-			line = line.decode("utf-8")
+			line = line.decode("utf-8", errors="replace")
 
 			# Strip off any comments
 			line, _, comment = line.partition(";")
@@ -2427,7 +2427,7 @@ class CLI(object):
 		"""
 		for line in f:
 			# Decode the line
-			line = line.decode("utf-8")
+			line = line.decode("utf-8", errors="replace")
 
 			# Parse JSON
 			try:
@@ -2598,7 +2598,7 @@ def iterate_over_blocks(f, charsets=("utf-8", "latin1")):
 def iterate_over_lines(f):
 	for line in f:
 		# Decode the line
-		line = line.decode()
+		line = line.decode(errors="replace")
 
 		# Strip the ending
 		yield line.rstrip()
-- 
2.43.0


From f8a33b7366332d1bbe6373ebf5c4e8f8b9222255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:39 +0000
Subject: [PATCH 48/59] fix: importer: Skip malformed and duplicate entries of
 feeds

Those made the import of the entire feed fail.
---
 src/scripts/location-importer.in | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 9d5f156..12f4ba8 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -2317,7 +2317,7 @@ class CLI(object):
 				continue
 
 			# Fetch the region
-			region = prefix.get("region")
+			region = prefix.get("region") or ""
 
 			# Set some defaults
 			cc = None
@@ -2414,7 +2414,9 @@ class CLI(object):
 				VALUES
 				(
 					%s, %s, %s
-				)""", "%s" % network, name, True,
+				)
+				ON CONFLICT (network, source) DO NOTHING
+				""", "%s" % network, name, True,
 			)
 
 		# Raise an exception if we could not import anything
@@ -2436,6 +2438,11 @@ class CLI(object):
 				log.warning("%s: Unable to parse JSON object %s: %s" % (name, line, e))
 				continue
 
+			# Skip anything that isn't an object
+			if not isinstance(line, dict):
+				log.warning("%s: Skipping invalid entry %s" % (name, line))
+				continue
+
 			# Fetch type
 			type = line.get("type")
 
@@ -2447,7 +2454,7 @@ class CLI(object):
 			asn  = line.get("asn")
 
 			# Skip any lines without an ASN
-			if not asn:
+			if not isinstance(asn, int):
 				continue
 
 			# Filter invalid ASNs
@@ -2467,7 +2474,9 @@ class CLI(object):
 				VALUES
 				(
 					%s, %s, %s
-				)""", "%s" % asn, name, True,
+				)
+				ON CONFLICT (number, source) DO NOTHING
+				""", "%s" % asn, name, True,
 			)
 
 	@staticmethod
-- 
2.43.0


From e3d6123271e224eb5a694c34a8999ea1996d7dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:12 +0000
Subject: [PATCH 49/59] fix: python: Release the enumerator when a search is
 refused

search_networks() left its enumerator behind when it raised an exception,
which kept the database open and mapped forever.
Also do not unref an AS which could not be created.
---
 src/python/database.c | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/python/database.c b/src/python/database.c
index f95d0d0..39253a4 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -325,7 +325,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 		r = loc_country_list_new(loc_ctx, &countries);
 		if (r) {
 			PyErr_SetString(PyExc_SystemError, "Could not create country list");
-			return NULL;
+			goto ERROR;
 		}
 
 		for (int i = 0; i < PyList_Size(country_codes); i++) {
@@ -334,13 +334,13 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 			if (!PyUnicode_Check(item)) {
 				PyErr_SetString(PyExc_TypeError, "Country codes must be strings");
 				loc_country_list_unref(countries);
-				return NULL;
+				goto ERROR;
 			}
 
 			const char* country_code = PyUnicode_AsUTF8(item);
 			if (!country_code) {
 				loc_country_list_unref(countries);
-				return NULL;
+				goto ERROR;
 			}
 
 			struct loc_country* country;
@@ -353,7 +353,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 				}
 
 				loc_country_list_unref(countries);
-				return NULL;
+				goto ERROR;
 			}
 
 			// Append it to the list
@@ -363,7 +363,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 
 				loc_country_list_unref(countries);
 				loc_country_unref(country);
-				return NULL;
+				goto ERROR;
 			}
 
 			loc_country_unref(country);
@@ -374,7 +374,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 			PyErr_SetFromErrno(PyExc_SystemError);
 
 			loc_country_list_unref(countries);
-			return NULL;
+			goto ERROR;
 		}
 
 		loc_country_list_unref(countries);
@@ -386,7 +386,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 		r = loc_as_list_new(loc_ctx, &asns);
 		if (r) {
 			PyErr_SetFromErrno(PyExc_OSError);
-			return NULL;
+			goto ERROR;
 		}
 
 		for (int i = 0; i < PyList_Size(asn_list); i++) {
@@ -396,14 +396,14 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 				PyErr_SetString(PyExc_TypeError, "ASNs must be numbers");
 
 				loc_as_list_unref(asns);
-				return NULL;
+				goto ERROR;
 			}
 
 			uint32_t number = 0;
 
 			if (!PyObject_AsASN(item, &number)) {
 				loc_as_list_unref(asns);
-				return NULL;
+				goto ERROR;
 			}
 
 			struct loc_as* as;
@@ -412,8 +412,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 				PyErr_SetFromErrno(PyExc_OSError);
 
 				loc_as_list_unref(asns);
-				loc_as_unref(as);
-				return NULL;
+				goto ERROR;
 			}
 
 			r = loc_as_list_append(asns, as);
@@ -422,7 +421,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 
 				loc_as_list_unref(asns);
 				loc_as_unref(as);
-				return NULL;
+				goto ERROR;
 			}
 
 			loc_as_unref(as);
@@ -433,7 +432,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 			PyErr_SetFromErrno(PyExc_OSError);
 
 			loc_as_list_unref(asns);
-			return NULL;
+			goto ERROR;
 		}
 
 		loc_as_list_unref(asns);
@@ -445,7 +444,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 
 		if (r) {
 			PyErr_SetFromErrno(PyExc_OSError);
-			return NULL;
+			goto ERROR;
 		}
 	}
 
@@ -455,7 +454,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 
 		if (r) {
 			PyErr_SetFromErrno(PyExc_OSError);
-			return NULL;
+			goto ERROR;
 		}
 	}
 
@@ -463,6 +462,11 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 	loc_database_enumerator_unref(enumerator);
 
 	return obj;
+
+ERROR:
+	loc_database_enumerator_unref(enumerator);
+
+	return NULL;
 }
 
 static PyObject* Database_countries(DatabaseObject* self) {
-- 
2.43.0


From 34b4f8cc3b8166ca9138cb1f3a1c272f950af049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:19 +0000
Subject: [PATCH 50/59] fix: perl: Close databases when nobody holds them any
 more

Databases were handed out as plain references to a pointer, so that DESTROY
was never called and the file stayed open and mapped until the program ended.
Any other reference was taken for a database and crashed the interpreter.
---
 src/perl/Location.xs     | 16 ++++++++++++----
 src/perl/lib/Location.pm |  3 +++
 src/perl/typemap         | 14 +++++++++++++-
 3 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/perl/Location.xs b/src/perl/Location.xs
index 064ccb5..dd62997 100644
--- a/src/perl/Location.xs
+++ b/src/perl/Location.xs
@@ -329,9 +329,17 @@ get_as_name(db, as_number)
 		RETVAL
 
 void
-DESTROY(db)
-	struct loc_database* db;
+DESTROY(self)
+	SV* self;
 
 	CODE:
-		// Close database
-		loc_database_unref(db);
+		if (SvROK(self)) {
+			struct loc_database* db = INT2PTR(struct loc_database*, SvIV(SvRV(self)));
+
+			// Close database
+			if (db)
+				loc_database_unref(db);
+
+			// Make sure that we won't use it again
+			sv_setiv(SvRV(self), 0);
+		}
diff --git a/src/perl/lib/Location.pm b/src/perl/lib/Location.pm
index 2782d53..cc7ad0e 100644
--- a/src/perl/lib/Location.pm
+++ b/src/perl/lib/Location.pm
@@ -28,6 +28,9 @@ XSLoader::load('Location', $VERSION);
 
 # Preloaded methods go here.
 
+# Databases cannot be shared with other threads
+sub CLONE_SKIP { 1 }
+
 1;
 __END__
 # Below is stub documentation for your module. You'd better edit it!
diff --git a/src/perl/typemap b/src/perl/typemap
index c53fb53..5861fb6 100644
--- a/src/perl/typemap
+++ b/src/perl/typemap
@@ -1,2 +1,14 @@
 TYPEMAP
-struct loc_database * T_PTRREF
+struct loc_database * T_LOC_DATABASE
+
+INPUT
+T_LOC_DATABASE
+	$var = NULL;
+	if (SvROK($arg) && sv_derived_from($arg, \"Location\"))
+		$var = INT2PTR($type, SvIV((SV*)SvRV($arg)));
+	if (!$var)
+		croak(\"%s is not an open database\", \"$var\");
+
+OUTPUT
+T_LOC_DATABASE
+	sv_setref_pv($arg, \"Location\", (void*)$var);
-- 
2.43.0


From cbdd74a8c44c2b41fefbd8dcb6ac23fb56efb3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:02 +0000
Subject: [PATCH 51/59] fix: export: Do not rewrite the header of an ipset in
 streams which are not ours

When the output was appended to a file, the header including 'flush' was added
to the end, which empties the set again.
---
 src/python/location/export.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/python/location/export.py b/src/python/location/export.py
index 1c65207..c0f9a99 100644
--- a/src/python/location/export.py
+++ b/src/python/location/export.py
@@ -50,6 +50,9 @@ class OutputWriter(object):
 		# Tag
 		self.tag = self._make_tag()
 
+		# Did we open the output file?
+		self.own = not f
+
 		# Open output file
 		if f:
 			self.f = f
@@ -183,14 +186,14 @@ class IpsetOutputWriter(OutputWriter):
 		self.networks += 1
 
 	def _write_footer(self):
-		# Jump back to the beginning of the file
-		try:
-			self.f.seek(0)
-
-		# If the output stream isn't seekable, we won't try writing the header again
-		except io.UnsupportedOperation:
+		# We won't try writing the header again if this isn't our own file, because it might
+		# not be seekable, hold something else already or only be open for appending
+		if not self.own:
 			return
 
+		# Jump back to the beginning of the file
+		self.f.seek(0)
+
 		# Rewrite the header with better configuration
 		self._write_header()
 
-- 
2.43.0


From 0594428c8e1f8eeeeedfb14098b2d264ec6cf856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:19 +0000
Subject: [PATCH 52/59] fix: network-tree: Merge networks until nothing is left
 to merge

A merge creates a new network which might be merged with another one that has
been passed by already. As the tree was only walked once, these were left until
the same writer was used again, so that writing it twice gave different files.
---
 src/network-tree.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/network-tree.c b/src/network-tree.c
index 3000883..df3b409 100644
--- a/src/network-tree.c
+++ b/src/network-tree.c
@@ -459,12 +459,20 @@ static int loc_network_tree_merge(struct loc_network_tree* tree) {
 	if (r)
 		goto ERROR;
 
-	// Walk through the entire tree
-	r = loc_network_tree_walk(tree, NULL, loc_network_tree_merge_step, &ctx);
-	if (r)
-		goto ERROR;
+	// Walk through the entire tree until there is nothing left to merge, because
+	// each merge might have made space for another one
+	do {
+		ctx.merged = 0;
+
+		// Start over with an empty list
+		loc_network_list_clear(ctx.networks);
+
+		r = loc_network_tree_walk(tree, NULL, loc_network_tree_merge_step, &ctx);
+		if (r)
+			goto ERROR;
 
-	DEBUG(tree->ctx, "%u network(s) have been merged\n", ctx.merged);
+		DEBUG(tree->ctx, "%u network(s) have been merged\n", ctx.merged);
+	} while (ctx.merged);
 
 ERROR:
 	if (ctx.networks)
-- 
2.43.0


From 58b9b96fcc09146d9e434ab07448f05c610c6de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:16 +0000
Subject: [PATCH 53/59] fix: writer: Fail when a key cannot sign the database

Feeding data into the signature returned zero on failure, which was then taken for
success. The database was written with an empty signature of the maximum length
when one of the keys was of a type that cannot be used, e.g. Ed25519.
---
 src/writer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/writer.c b/src/writer.c
index 6cfb116..3d01fb6 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -583,6 +583,7 @@ static int loc_writer_create_signature(struct loc_writer* writer,
 	int r = EVP_DigestSignInit(mdctx, NULL, NULL, NULL, private_key);
 	if (r != 1) {
 		ERROR(writer->ctx, "%s\n", ERR_error_string(ERR_get_error(), NULL));
+		r = -1;
 		goto END;
 	}
 
@@ -601,6 +602,7 @@ static int loc_writer_create_signature(struct loc_writer* writer,
 	r = EVP_DigestSignUpdate(mdctx, &magic, sizeof(magic));
 	if (r != 1) {
 		ERROR(writer->ctx, "%s\n", ERR_error_string(ERR_get_error(), NULL));
+		r = -1;
 		goto END;
 	}
 
@@ -610,6 +612,7 @@ static int loc_writer_create_signature(struct loc_writer* writer,
 	r = EVP_DigestSignUpdate(mdctx, header, sizeof(*header));
 	if (r != 1) {
 		ERROR(writer->ctx, "%s\n", ERR_error_string(ERR_get_error(), NULL));
+		r = -1;
 		goto END;
 	}
 
-- 
2.43.0


From 0b73f13877471ad754658d60fbf59cc450be1d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:13 +0000
Subject: [PATCH 54/59] fix: stringpool: Find the empty string, too

The empty string was never found and appended again each time, so that every AS
without a name made the file grow whenever the same writer was used once more.
---
 src/stringpool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stringpool.c b/src/stringpool.c
index 85298e6..34ef68f 100644
--- a/src/stringpool.c
+++ b/src/stringpool.c
@@ -176,7 +176,7 @@ size_t loc_stringpool_get_size(struct loc_stringpool* pool) {
 }
 
 static off_t loc_stringpool_find(struct loc_stringpool* pool, const char* s) {
-	if (!s || !*s) {
+	if (!s) {
 		errno = EINVAL;
 		return -1;
 	}
-- 
2.43.0


From 3ed3829ba024af6a100308274652e10f8beb0eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:23 +0000
Subject: [PATCH 55/59] fix: database: Stop verifying when the file cannot be
 read

The end of the file is never reached after a read error, and the loop never
ended.
---
 src/database.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/database.c b/src/database.c
index 5856a0e..8779356 100644
--- a/src/database.c
+++ b/src/database.c
@@ -636,6 +636,13 @@ LOC_EXPORT int loc_database_verify(struct loc_database* db, FILE* f) {
 	while (!feof(db->f)) {
 		bytes_read = fread(buffer, 1, sizeof(buffer), db->f);
 
+		if (ferror(db->f)) {
+			ERROR(db->ctx, "Error reading from file: %m\n");
+			r = 1;
+
+			goto CLEANUP;
+		}
+
 		hexdump(db->ctx, buffer, bytes_read);
 
 		r = EVP_DigestVerifyUpdate(mdctx, buffer, bytes_read);
-- 
2.43.0


From cf3a8fd9f0692f050ed1cd7fbb6708003d800564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:39 +0000
Subject: [PATCH 56/59] fix: writer: Leave the networks alone when writing a
 database

Redundant networks were removed from the tree of the writer itself. When further
networks were added and the database was written once more, they were missing:
10.1.0.0/16 (DE) was removed from 10.0.0.0/8 (DE), and an added 10.0.0.0/12 (FR)
took its place.
---
 src/libloc/network-tree.h |  1 +
 src/network-tree.c        | 25 +++++++++++++++++++++++++
 src/writer.c              | 16 +++++++++++++---
 3 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/src/libloc/network-tree.h b/src/libloc/network-tree.h
index 13052b7..361215f 100644
--- a/src/libloc/network-tree.h
+++ b/src/libloc/network-tree.h
@@ -25,6 +25,7 @@
 struct loc_network_tree;
 
 int loc_network_tree_new(struct loc_ctx* ctx, struct loc_network_tree** tree);
+int loc_network_tree_copy(struct loc_network_tree* tree, struct loc_network_tree** copy);
 
 struct loc_network_tree* loc_network_tree_unref(struct loc_network_tree* tree);
 
diff --git a/src/network-tree.c b/src/network-tree.c
index df3b409..65df269 100644
--- a/src/network-tree.c
+++ b/src/network-tree.c
@@ -249,6 +249,31 @@ static int loc_network_tree_delete_network(
 	return 0;
 }
 
+static int loc_network_tree_copy_network(struct loc_network* network, void* data) {
+	struct loc_network_tree* copy = data;
+
+	return loc_network_tree_add_network(copy, network);
+}
+
+int loc_network_tree_copy(struct loc_network_tree* tree, struct loc_network_tree** copy) {
+	struct loc_network_tree* t = NULL;
+
+	// Create an empty tree
+	int r = loc_network_tree_new(tree->ctx, &t);
+	if (r)
+		return r;
+
+	// Add all networks
+	r = loc_network_tree_walk(tree, NULL, loc_network_tree_copy_network, t);
+	if (r) {
+		loc_network_tree_unref(t);
+		return r;
+	}
+
+	*copy = t;
+	return 0;
+}
+
 static size_t __loc_network_tree_count_nodes(struct loc_network_tree_node* node) {
 	size_t counter = 1;
 
diff --git a/src/writer.c b/src/writer.c
index 3d01fb6..fa3c20c 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -421,13 +421,23 @@ static int loc_database_write_networks(struct loc_writer* writer,
 	TAILQ_HEAD(network_t, network) networks;
 	TAILQ_INIT(&networks);
 
-	// Cleanup the tree before writing it
-	r = loc_network_tree_cleanup(writer->networks);
+	// Work on a copy of the tree so that the networks of the writer are left alone
+	struct loc_network_tree* tree = NULL;
+	r = loc_network_tree_copy(writer->networks, &tree);
 	if (r)
 		return r;
 
+	// Cleanup the tree before writing it
+	r = loc_network_tree_cleanup(tree);
+	if (r) {
+		loc_network_tree_unref(tree);
+		return r;
+	}
+
 	// Add root
-	struct loc_network_tree_node* root = loc_network_tree_get_root(writer->networks);
+	struct loc_network_tree_node* root = loc_network_tree_get_root(tree);
+	loc_network_tree_unref(tree);
+
 	node = make_node(root);
 	if (!node)
 		return 1;
-- 
2.43.0


From 78eae53c3e9fbf62cfa34a4e8b994b0a940b546e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:54 +0000
Subject: [PATCH 57/59] fix: writer: Fail when the file cannot be rewound for
 signing

A failed seek was ignored: the write succeeded with a signature over
something else than the file.
---
 src/writer.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/writer.c b/src/writer.c
index fa3c20c..a481758 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -584,7 +584,10 @@ static int loc_writer_create_signature(struct loc_writer* writer,
 	DEBUG(writer->ctx, "Creating signature...\n");
 
 	// Read file from the beginning
-	rewind(f);
+	if (fseek(f, 0, SEEK_SET)) {
+		ERROR(writer->ctx, "Could not seek to the beginning of the file: %m\n");
+		return -1;
+	}
 
 	// Create a new context for signing
 	EVP_MD_CTX* mdctx = EVP_MD_CTX_new();
@@ -627,7 +630,11 @@ static int loc_writer_create_signature(struct loc_writer* writer,
 	}
 
 	// Skip header
-	fseek(f, sizeof(*header), SEEK_CUR);
+	if (fseek(f, sizeof(*header), SEEK_CUR)) {
+		ERROR(writer->ctx, "Could not skip the header: %m\n");
+		r = -1;
+		goto END;
+	}
 
 	// Walk through the file in chunks of 64kB
 	char buffer[64 * 1024];
-- 
2.43.0


From 3e6e264d43ee71e9611a452aa8395ae69191a443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:54 +0000
Subject: [PATCH 58/59] fix: database: Close the duplicated descriptor if it
 cannot be read

A database opened from a stream that is not readable kept a descriptor
open for ever.
---
 src/database.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/database.c b/src/database.c
index 8779356..d534ea0 100644
--- a/src/database.c
+++ b/src/database.c
@@ -409,7 +409,7 @@ static int loc_database_clone_handle(struct loc_database* db, FILE* f) {
 
 	// Clone file descriptor
 	fd = dup(fd);
-	if (!fd) {
+	if (fd < 0) {
 		ERROR(db->ctx, "Could not duplicate file descriptor\n");
 		return 1;
 	}
@@ -418,6 +418,7 @@ static int loc_database_clone_handle(struct loc_database* db, FILE* f) {
 	db->f = fdopen(fd, "r");
 	if (!db->f) {
 		ERROR(db->ctx, "Could not re-open database file\n");
+		close(fd);
 		return 1;
 	}
 
-- 
2.43.0


From 0e0eb5c8121c2231b0a6efc4069f8979abf395bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:54 +0000
Subject: [PATCH 59/59] fix: python: Raise an exception if a writer cannot be
 created

Writer() with something that is not a private key raised SystemError
(returned NULL without setting an exception).
---
 src/python/writer.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/python/writer.c b/src/python/writer.c
index b22c9ce..b56bb2c 100644
--- a/src/python/writer.c
+++ b/src/python/writer.c
@@ -88,7 +88,13 @@ static int Writer_init(WriterObject* self, PyObject* args, PyObject* kwargs) {
 	}
 
 	// Create the writer object
-	return loc_writer_new(loc_ctx, &self->writer, f1, f2);
+	int r = loc_writer_new(loc_ctx, &self->writer, f1, f2);
+	if (r) {
+		PyErr_SetString(PyExc_ValueError, "Could not create the writer, is this a private key?");
+		return -1;
+	}
+
+	return 0;
 }
 
 static PyObject* Writer_get_vendor(WriterObject* self) {
-- 
2.43.0


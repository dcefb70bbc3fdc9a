From 254d14b23eced750d46dee1040c854c9df178696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:55 +0000
Subject: [PATCH 01/87] fix: database: fall back to the enclosing network when
 nothing is found below a node

The recursive search returns 0 even when nothing was found, which was taken
for a match by the caller, so that the leaf of a less specific network was
never consulted (10.0.0.0/8 + 10.1.0.0/16: 10.0.0.1 was not found).
---
 src/database.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/database.c b/src/database.c
index 8bbbe79..4232836 100644
--- a/src/database.c
+++ b/src/database.c
@@ -908,14 +908,14 @@ static int __loc_database_lookup(struct loc_database* db, const struct in6_addr*
 		// Move on to the next node
 		r = __loc_database_lookup(db, address, network, network_address, node_index, level + 1);
 
-		// End here if a result was found
-		if (r == 0)
-			return r;
-
 		// Raise any errors
-		else if (r < 0)
+		if (r < 0)
 			return r;
 
+		// End here if a result was found
+		if (*network)
+			return 0;
+
 		DEBUG(db->ctx, "No match found below level %u\n", level);
 	} else {
 		DEBUG(db->ctx, "Tree ended at level %u\n", level);
-- 
2.43.0


From b79220968142cb2959b01993cb53e636898112de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:09 +0000
Subject: [PATCH 02/87] fix: country: do not leave a dangling pointer behind
 when loading fails

---
 src/country.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/country.c b/src/country.c
index 8152a89..d928a9d 100644
--- a/src/country.c
+++ b/src/country.c
@@ -169,6 +169,8 @@ int loc_country_new_from_database_v1(struct loc_ctx* ctx, struct loc_stringpool*
 
 FAIL:
 	loc_country_unref(*country);
+	*country = NULL;
+
 	return r;
 }
 
-- 
2.43.0


From c58af479ef5d10da6db25a82d813954e5bc51305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:09 +0000
Subject: [PATCH 03/87] fix: database: do not hand out a released object when a
 binary search fails

---
 src/database.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/database.c b/src/database.c
index 4232836..be203e2 100644
--- a/src/database.c
+++ b/src/database.c
@@ -791,6 +791,7 @@ LOC_EXPORT int loc_database_get_as(struct loc_database* db, struct loc_as** as,
 		// If it wasn't, we release the AS and
 		// adjust our search pointers
 		loc_as_unref(*as);
+		*as = NULL;
 
 		if (as_number < number) {
 			lo = i + 1;
@@ -1048,6 +1049,7 @@ LOC_EXPORT int loc_database_get_country(struct loc_database* db,
 		// If it wasn't, we release the country and
 		// adjust our search pointers
 		loc_country_unref(*country);
+		*country = NULL;
 
 		if (result > 0) {
 			lo = i + 1;
-- 
2.43.0


From 2ae874630444406ec743ea05b47db9a487b20733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:09 +0000
Subject: [PATCH 04/87] fix: network: release the network when it could not be
 loaded from the database

---
 src/network.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/network.c b/src/network.c
index 69306a9..b140c9a 100644
--- a/src/network.c
+++ b/src/network.c
@@ -679,7 +679,7 @@ int loc_network_new_from_database_v1(struct loc_ctx* ctx, struct loc_network** n
 	r = loc_network_set_country_code(*network, country_code);
 	if (r) {
 		ERROR(ctx, "Could not set country code: %s\n", country_code);
-		return r;
+		goto ERROR;
 	}
 
 	// Import ASN
@@ -687,7 +687,7 @@ int loc_network_new_from_database_v1(struct loc_ctx* ctx, struct loc_network** n
 	r = loc_network_set_asn(*network, asn);
 	if (r) {
 		ERROR(ctx, "Could not set ASN: %d\n", asn);
-		return r;
+		goto ERROR;
 	}
 
 	// Import flags
@@ -695,10 +695,16 @@ int loc_network_new_from_database_v1(struct loc_ctx* ctx, struct loc_network** n
 	r = loc_network_set_flag(*network, flags);
 	if (r) {
 		ERROR(ctx, "Could not set flags: %d\n", flags);
-		return r;
+		goto ERROR;
 	}
 
 	return 0;
+
+ERROR:
+	loc_network_unref(*network);
+	*network = NULL;
+
+	return r;
 }
 
 static char* loc_network_reverse_pointer6(struct loc_network* network, const char* suffix) {
-- 
2.43.0


From 3ee502c287b4cac99f11fd6fc9f969b78c006a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:09 +0000
Subject: [PATCH 05/87] fix: network: release the first subnet when the second
 one could not be created

---
 src/network.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/network.c b/src/network.c
index b140c9a..9f57bde 100644
--- a/src/network.c
+++ b/src/network.c
@@ -357,8 +357,12 @@ LOC_EXPORT int loc_network_subnets(struct loc_network* network,
 
 	// Create the second half of the network
 	r = loc_network_new(network->ctx, subnet2, &first_address, prefix);
-	if (r)
+	if (r) {
+		loc_network_unref(*subnet1);
+		*subnet1 = NULL;
+
 		return r;
+	}
 
 	// Copy country code
 	const char* country_code = loc_network_get_country_code(network);
-- 
2.43.0


From 7da7b24a03c8bcf347774a4bd205d636fcc08249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:09 +0000
Subject: [PATCH 06/87] fix: network: free intermediate buffers when composing
 an IPv6 reverse pointer

---
 src/network.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/network.c b/src/network.c
index 9f57bde..b4daa72 100644
--- a/src/network.c
+++ b/src/network.c
@@ -713,6 +713,7 @@ ERROR:
 
 static char* loc_network_reverse_pointer6(struct loc_network* network, const char* suffix) {
 	char* buffer = NULL;
+	char* p = NULL;
 	int r;
 
 	unsigned int prefix = loc_network_prefix(network);
@@ -732,16 +733,22 @@ static char* loc_network_reverse_pointer6(struct loc_network* network, const cha
 		goto ERROR;
 
 	for (unsigned int i = 0; i < (prefix / 4); i++) {
-		r = asprintf(&buffer, "%x.%s", loc_address_get_nibble(&network->first_address, i), buffer);
+		r = asprintf(&p, "%x.%s", loc_address_get_nibble(&network->first_address, i), buffer);
 		if (r < 0)
 			goto ERROR;
+
+		free(buffer);
+		buffer = p;
 	}
 
 	// Add the asterisk
 	if (prefix < 128) {
-		r = asprintf(&buffer, "*.%s", buffer);
+		r = asprintf(&p, "*.%s", buffer);
 		if (r < 0)
 			goto ERROR;
+
+		free(buffer);
+		buffer = p;
 	}
 
 	return buffer;
-- 
2.43.0


From 91869b84437f493ea23370f6c6210b62452f08d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:09 +0000
Subject: [PATCH 07/87] fix: network-list: release networks that have been
 added to the summary

---
 src/network-list.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/network-list.c b/src/network-list.c
index d35bf56..22899cf 100644
--- a/src/network-list.c
+++ b/src/network-list.c
@@ -384,6 +384,8 @@ int loc_network_list_summarize(struct loc_ctx* ctx,
 		// The next network starts right after this one
 		start = *loc_network_get_last_address(network);
 
+		loc_network_unref(network);
+
 		// If we have reached the end of possible IP addresses, we stop
 		if (loc_address_all_ones(&start))
 			break;
-- 
2.43.0


From 49426cddd55efe7e22eca8647412f2b09ccd81ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:09 +0000
Subject: [PATCH 08/87] fix: database: release the network when bogons cannot
 be computed for its family

---
 src/database.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/database.c b/src/database.c
index be203e2..c8dbe66 100644
--- a/src/database.c
+++ b/src/database.c
@@ -1586,6 +1586,7 @@ static int __loc_database_enumerator_next_bogon(
 
 			default:
 				ERROR(enumerator->ctx, "Unsupported network family %d\n", family);
+				loc_network_unref(network);
 				errno = ENOTSUP;
 				return 1;
 		}
-- 
2.43.0


From 4056d056e400aaa9d36fdd92b5a555f1f901a24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:57 +0000
Subject: [PATCH 09/87] fix: database: do not leak or dereference NULL when
 setting a search string

---
 src/database.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/database.c b/src/database.c
index c8dbe66..89c6484 100644
--- a/src/database.c
+++ b/src/database.c
@@ -1161,7 +1161,15 @@ LOC_EXPORT struct loc_database_enumerator* loc_database_enumerator_unref(struct
 }
 
 LOC_EXPORT int loc_database_enumerator_set_string(struct loc_database_enumerator* enumerator, const char* string) {
-	enumerator->string = strdup(string);
+	char* s = strdup(string);
+	if (!s)
+		return 1;
+
+	// Replace any former string
+	if (enumerator->string)
+		free(enumerator->string);
+
+	enumerator->string = s;
 
 	// Make the string lowercase
 	for (char *p = enumerator->string; *p; p++)
-- 
2.43.0


From 918e865323324b9cd7b4b10462ed28659b899b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:57 +0000
Subject: [PATCH 10/87] fix: database: release the network when the flattened
 enumeration fails

Errors handed out a network together with an error code (which no caller
releases) and called loc_network_unref(NULL).
---
 src/database.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/database.c b/src/database.c
index 89c6484..07fcff9 100644
--- a/src/database.c
+++ b/src/database.c
@@ -1445,7 +1445,7 @@ static int __loc_database_enumerator_next_network_flattened(
 	if (!enumerator->subnets) {
 		r = loc_network_list_new(enumerator->ctx, &enumerator->subnets);
 		if (r)
-			return r;
+			goto ERROR;
 	}
 
 	// Search all subnets from the database
@@ -1453,10 +1453,9 @@ static int __loc_database_enumerator_next_network_flattened(
 		// Fetch the next network in line
 		r = __loc_database_enumerator_next_network(enumerator, &subnet, 0);
 		if (r) {
-			loc_network_unref(subnet);
 			loc_network_list_clear(enumerator->subnets);
 
-			return r;
+			goto ERROR;
 		}
 
 		// End if we did not receive another subnet
@@ -1470,7 +1469,7 @@ static int __loc_database_enumerator_next_network_flattened(
 				loc_network_unref(subnet);
 				loc_network_list_clear(enumerator->subnets);
 
-				return r;
+				goto ERROR;
 			}
 
 			loc_network_unref(subnet);
@@ -1483,7 +1482,7 @@ static int __loc_database_enumerator_next_network_flattened(
 			loc_network_unref(subnet);
 			loc_network_list_clear(enumerator->subnets);
 
-			return r;
+			goto ERROR;
 		}
 
 		loc_network_unref(subnet);
@@ -1505,7 +1504,9 @@ static int __loc_database_enumerator_next_network_flattened(
 	struct loc_network_list* excluded = loc_network_exclude_list(*network, enumerator->subnets);
 	if (!excluded) {
 		loc_network_list_clear(enumerator->subnets);
-		return 1;
+
+		r = 1;
+		goto ERROR;
 	}
 
 	// Merge subnets onto the stack
@@ -1514,7 +1515,7 @@ static int __loc_database_enumerator_next_network_flattened(
 		loc_network_list_clear(enumerator->subnets);
 		loc_network_list_unref(excluded);
 
-		return r;
+		goto ERROR;
 	}
 
 	// Push excluded list onto the stack
@@ -1523,7 +1524,7 @@ static int __loc_database_enumerator_next_network_flattened(
 		loc_network_list_clear(enumerator->subnets);
 		loc_network_list_unref(excluded);
 
-		return r;
+		goto ERROR;
 	}
 
 	loc_network_list_clear(enumerator->subnets);
@@ -1533,6 +1534,12 @@ static int __loc_database_enumerator_next_network_flattened(
 	loc_network_unref(*network);
 
 	return __loc_database_enumerator_next_network_flattened(enumerator, network);
+
+ERROR:
+	loc_network_unref(*network);
+	*network = NULL;
+
+	return r;
 }
 
 /*
-- 
2.43.0


From 429913319ff7d944dc8ab9f39fbea0069e7d97cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:57 +0000
Subject: [PATCH 11/87] fix: network-tree: stop descending when a node could
 not be allocated

---
 src/network-tree.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/network-tree.c b/src/network-tree.c
index 7096625..8d8e283 100644
--- a/src/network-tree.c
+++ b/src/network-tree.c
@@ -105,6 +105,8 @@ static struct loc_network_tree_node* loc_network_tree_get_path(struct loc_networ
 	for (unsigned int i = 0; i < prefix; i++) {
 		// Check if the ith bit is one or zero
 		node = loc_network_tree_get_node(node, loc_address_get_bit(address, i));
+		if (!node)
+			return NULL;
 	}
 
 	return node;
-- 
2.43.0


From 19509304e80ed8df0b78aa079d0d6605b8ae29c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:57 +0000
Subject: [PATCH 12/87] fix: network-tree: release the network when
 deduplication fails

---
 src/network-tree.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/network-tree.c b/src/network-tree.c
index 8d8e283..519b1e1 100644
--- a/src/network-tree.c
+++ b/src/network-tree.c
@@ -525,8 +525,6 @@ static int loc_network_tree_dedup_step(struct loc_network* network, void* data)
 
 	// If network did not get removed, we push it into the stack
 	r = loc_network_list_push(ctx->stack, network);
-	if (r)
-		return r;
 
 END:
 	if (n)
-- 
2.43.0


From f123f12cb9f8fc67c9cc4906f86ab7d69a7399ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:57 +0000
Subject: [PATCH 13/87] fix: network-tree: do not access a network that has
 been deleted while merging

---
 src/network-tree.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/network-tree.c b/src/network-tree.c
index 519b1e1..84a72f1 100644
--- a/src/network-tree.c
+++ b/src/network-tree.c
@@ -353,6 +353,9 @@ static int loc_network_tree_merge_step(struct loc_network* network, void* data)
 	struct loc_network* m = NULL;
 	int r;
 
+	// Deleting the network from the tree below might drop its last reference
+	const unsigned int prefix = loc_network_prefix(network);
+
 	// How many networks do we have?
 	size_t i = loc_network_list_size(ctx->networks);
 
@@ -433,8 +436,6 @@ static int loc_network_tree_merge_step(struct loc_network* network, void* data)
 		n = NULL;
 	}
 
-	const unsigned int prefix = loc_network_prefix(network);
-
 	// Remove any networks that we cannot merge
 	loc_network_list_remove_with_prefix_smaller_than(ctx->networks, prefix);
 
-- 
2.43.0


From e7021f32248c9debb306f4d47bc538eaf99d0a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:57 +0000
Subject: [PATCH 14/87] fix: stringpool: keep the pool intact and return an
 error when it cannot be grown

The former return value of 1 was taken for a valid offset by the callers.
---
 src/stringpool.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/stringpool.c b/src/stringpool.c
index 9986a61..4af123f 100644
--- a/src/stringpool.c
+++ b/src/stringpool.c
@@ -45,16 +45,16 @@ struct loc_stringpool {
 static int loc_stringpool_grow(struct loc_stringpool* pool, const size_t size) {
 	DEBUG(pool->ctx, "Growing string pool by %zu byte(s)\n", size);
 
-	// Increment size
-	pool->size += size;
-
 	// Reallocate blocks
-	pool->blocks = realloc(pool->blocks, pool->size);
-	if (!pool->blocks) {
+	char* blocks = realloc(pool->blocks, pool->size + size);
+	if (!blocks) {
 		ERROR(pool->ctx, "Could not grow string pool: %m\n");
-		return 1;
+		return -1;
 	}
 
+	pool->blocks = blocks;
+	pool->size += size;
+
 	// Update data pointer
 	pool->data = pool->blocks;
 
-- 
2.43.0


From 772462979783332e4c37f3646447e79842bfb7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:58 +0000
Subject: [PATCH 15/87] fix: stringpool: make enough space for strings that are
 longer than a block

---
 src/stringpool.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stringpool.c b/src/stringpool.c
index 4af123f..b5a04ff 100644
--- a/src/stringpool.c
+++ b/src/stringpool.c
@@ -74,7 +74,8 @@ static off_t loc_stringpool_append(struct loc_stringpool* pool, const char* stri
 
 	// Make sure we have enough space
 	if (pool->length + length > pool->size) {
-		int r = loc_stringpool_grow(pool, LOC_STRINGPOOL_BLOCK_SIZE);
+		int r = loc_stringpool_grow(pool, (length > LOC_STRINGPOOL_BLOCK_SIZE) ?
+			length : LOC_STRINGPOOL_BLOCK_SIZE);
 		if (r)
 			return r;
 	}
-- 
2.43.0


From 9f13065d8d2eae182eea697d3492e24528f65ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:58 +0000
Subject: [PATCH 16/87] fix: stringpool: do not return a valid offset when the
 search fails

---
 src/stringpool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stringpool.c b/src/stringpool.c
index b5a04ff..45c57ca 100644
--- a/src/stringpool.c
+++ b/src/stringpool.c
@@ -182,7 +182,7 @@ static off_t loc_stringpool_find(struct loc_stringpool* pool, const char* s) {
 
 		// Error!
 		if (!string)
-			return 1;
+			return -1;
 
 		// Is this a match?
 		if (strcmp(s, string) == 0)
-- 
2.43.0


From 9095cdb710549391eda12bec74878f07538f2689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:20 +0000
Subject: [PATCH 17/87] fix: writer: do not leak objects that could not be
 added

---
 src/writer.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/writer.c b/src/writer.c
index ec5f896..08627fb 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -245,7 +245,13 @@ LOC_EXPORT int loc_writer_add_as(struct loc_writer* writer, struct loc_as** as,
 		return r;
 
 	// Append it to the list
-	return loc_as_list_append(writer->as_list, *as);
+	r = loc_as_list_append(writer->as_list, *as);
+	if (r) {
+		loc_as_unref(*as);
+		*as = NULL;
+	}
+
+	return r;
 }
 
 LOC_EXPORT int loc_writer_add_network(struct loc_writer* writer, struct loc_network** network, const char* string) {
@@ -257,7 +263,13 @@ LOC_EXPORT int loc_writer_add_network(struct loc_writer* writer, struct loc_netw
 		return r;
 
 	// Add it to the local tree
-	return loc_network_tree_add_network(writer->networks, *network);
+	r = loc_network_tree_add_network(writer->networks, *network);
+	if (r) {
+		loc_network_unref(*network);
+		*network = NULL;
+	}
+
+	return r;
 }
 
 LOC_EXPORT int loc_writer_add_country(struct loc_writer* writer, struct loc_country** country, const char* country_code) {
@@ -267,7 +279,13 @@ LOC_EXPORT int loc_writer_add_country(struct loc_writer* writer, struct loc_coun
 		return r;
 
 	// Append it to the list
-	return loc_country_list_append(writer->country_list, *country);
+	r = loc_country_list_append(writer->country_list, *country);
+	if (r) {
+		loc_country_unref(*country);
+		*country = NULL;
+	}
+
+	return r;
 }
 
 static void make_magic(struct loc_writer* writer, struct loc_database_magic* magic,
-- 
2.43.0


From 7c5ab84cbe75d6cf5e08f105fbfdceb348377a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:20 +0000
Subject: [PATCH 18/87] fix: writer: release countries after they have been
 written

---
 src/writer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/writer.c b/src/writer.c
index 08627fb..7d98f11 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -551,6 +551,8 @@ static int loc_database_write_countries(struct loc_writer* writer,
 
 	for (unsigned int i = 0; i < countries_count; i++) {
 		struct loc_country* country = loc_country_list_get(writer->country_list, i);
+		if (!country)
+			return 1;
 
 		// Convert country into database format
 		loc_country_to_database_v1(country, writer->pool, &block);
@@ -558,6 +560,9 @@ static int loc_database_write_countries(struct loc_writer* writer,
 		// Write to disk
 		*offset += fwrite(&block, 1, sizeof(block), f);
 		block_length += sizeof(block);
+
+		// Unref country
+		loc_country_unref(country);
 	}
 
 	DEBUG(writer->ctx, "Countries section has a length of %zu bytes\n", block_length);
-- 
2.43.0


From 8101ddff61fb0a8f554b0852702091555eda485c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:20 +0000
Subject: [PATCH 19/87] fix: writer: sort countries before writing them

loc_database_get_country() performs a binary search, which did not find
countries that had not been added in alphabetical order.
---
 src/writer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/writer.c b/src/writer.c
index 7d98f11..61532f8 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -544,6 +544,9 @@ static int loc_database_write_countries(struct loc_writer* writer,
 	DEBUG(writer->ctx, "Countries section starts at %jd bytes\n", (intmax_t)*offset);
 	header->countries_offset = htobe32(*offset);
 
+	// Sort the country list first, because it is being searched by bisection
+	loc_country_list_sort(writer->country_list);
+
 	const size_t countries_count = loc_country_list_size(writer->country_list);
 
 	struct loc_database_country_v1 block;
-- 
2.43.0


From 2ef878f4d452219f4ee2de49585dde9e381e36c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:20 +0000
Subject: [PATCH 20/87] fix: writer: check allocations and release everything
 when the networks cannot be written

---
 src/writer.c | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/writer.c b/src/writer.c
index 61532f8..8aeffaa 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -417,7 +417,7 @@ static int loc_database_write_networks(struct loc_writer* writer,
 	size_t network_tree_length = 0;
 	size_t network_data_length = 0;
 
-	struct node* node;
+	struct node* node = NULL;
 	struct node* child_node;
 
 	uint32_t index = 0;
@@ -442,6 +442,7 @@ static int loc_database_write_networks(struct loc_writer* writer,
 	// Add root
 	struct loc_network_tree_node* root = loc_network_tree_get_root(writer->networks);
 	node = make_node(root);
+	loc_network_tree_node_unref(root);
 	if (!node)
 		return 1;
 
@@ -461,6 +462,11 @@ static int loc_database_write_networks(struct loc_writer* writer,
 
 			child_node = make_node(node_zero);
 			loc_network_tree_node_unref(node_zero);
+			if (!child_node) {
+				free_node(node);
+				r = 1;
+				goto ERROR;
+			}
 
 			TAILQ_INSERT_TAIL(&nodes, child_node, nodes);
 		}
@@ -471,6 +477,11 @@ static int loc_database_write_networks(struct loc_writer* writer,
 
 			child_node = make_node(node_one);
 			loc_network_tree_node_unref(node_one);
+			if (!child_node) {
+				free_node(node);
+				r = 1;
+				goto ERROR;
+			}
 
 			TAILQ_INSERT_TAIL(&nodes, child_node, nodes);
 		}
@@ -484,14 +495,15 @@ static int loc_database_write_networks(struct loc_writer* writer,
 
 			// Append network to be written out later
 			struct network* nw = make_network(network);
+			loc_network_unref(network);
 			if (!nw) {
 				free_node(node);
-				return 1;
+				r = 1;
+				goto ERROR;
 			}
 			TAILQ_INSERT_TAIL(&networks, nw, networks);
 
 			db_node.network = htobe32(network_index++);
-			loc_network_unref(network);
 		} else {
 			db_node.network = htobe32(0xffffffff);
 		}
@@ -506,8 +518,6 @@ static int loc_database_write_networks(struct loc_writer* writer,
 		free_node(node);
 	}
 
-	loc_network_tree_node_unref(root);
-
 	header->network_tree_length = htobe32(network_tree_length);
 
 	align_page_boundary(offset, f);
@@ -523,13 +533,12 @@ static int loc_database_write_networks(struct loc_writer* writer,
 
 		// Prepare what we are writing to disk
 		r = loc_network_to_database_v1(nw->network, &db_network);
+		free_network(nw);
 		if (r)
-			return r;
+			goto ERROR;
 
 		*offset += fwrite(&db_network, 1, sizeof(db_network), f);
 		network_data_length += sizeof(db_network);
-
-		free_network(nw);
 	}
 
 	header->network_data_length = htobe32(network_data_length);
@@ -537,6 +546,24 @@ static int loc_database_write_networks(struct loc_writer* writer,
 	align_page_boundary(offset, f);
 
 	return 0;
+
+ERROR:
+	// Release everything that is still waiting in the queues
+	while (!TAILQ_EMPTY(&nodes)) {
+		node = TAILQ_FIRST(&nodes);
+		TAILQ_REMOVE(&nodes, node, nodes);
+
+		free_node(node);
+	}
+
+	while (!TAILQ_EMPTY(&networks)) {
+		struct network* nw = TAILQ_FIRST(&networks);
+		TAILQ_REMOVE(&networks, nw, networks);
+
+		free_network(nw);
+	}
+
+	return r;
 }
 
 static int loc_database_write_countries(struct loc_writer* writer,
-- 
2.43.0


From b4e1ccbeff995d62460a041c2053537e61965b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:25 +0000
Subject: [PATCH 21/87] fix: writer: report any errors when writing the
 database

Short writes were ignored, so that a truncated database was reported as a
success. Writing the padding looped forever once the disk was full.
---
 src/writer.c | 90 ++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 62 insertions(+), 28 deletions(-)

diff --git a/src/writer.c b/src/writer.c
index 8aeffaa..b293cbb 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -298,10 +298,25 @@ static void make_magic(struct loc_writer* writer, struct loc_database_magic* mag
 	magic->version = version;
 }
 
-static void align_page_boundary(off_t* offset, FILE* f) {
+static int write_data(const void* data, const size_t length, off_t* offset, FILE* f) {
+	const size_t bytes_written = fwrite(data, 1, length, f);
+
+	*offset += bytes_written;
+
+	return (bytes_written < length) ? 1 : 0;
+}
+
+static int align_page_boundary(off_t* offset, FILE* f) {
+	int r;
+
 	// Move to next page boundary
-	while (*offset % LOC_DATABASE_PAGE_SIZE > 0)
-		*offset += fwrite("", 1, 1, f);
+	while (*offset % LOC_DATABASE_PAGE_SIZE > 0) {
+		r = write_data("", 1, offset, f);
+		if (r)
+			return r;
+	}
+
+	return 0;
 }
 
 static int loc_database_write_pool(struct loc_writer* writer,
@@ -312,6 +327,10 @@ static int loc_database_write_pool(struct loc_writer* writer,
 
 	// Write the pool
 	size_t pool_length = loc_stringpool_write(writer->pool, f);
+	if (pool_length < loc_stringpool_get_size(writer->pool)) {
+		ERROR(writer->ctx, "Could not write the string pool: %m\n");
+		return 1;
+	}
 	*offset += pool_length;
 
 	DEBUG(writer->ctx, "Pool has a length of %zu bytes\n", pool_length);
@@ -332,6 +351,7 @@ static int loc_database_write_as_section(struct loc_writer* writer,
 
 	struct loc_database_as_v1 block;
 	size_t block_length = 0;
+	int r;
 
 	for (unsigned int i = 0; i < as_count; i++) {
 		struct loc_as* as = loc_as_list_get(writer->as_list, i);
@@ -341,20 +361,20 @@ static int loc_database_write_as_section(struct loc_writer* writer,
 		// Convert AS into database format
 		loc_as_to_database_v1(as, writer->pool, &block);
 
-		// Write to disk
-		*offset += fwrite(&block, 1, sizeof(block), f);
-		block_length += sizeof(block);
-
 		// Unref AS
 		loc_as_unref(as);
+
+		// Write to disk
+		r = write_data(&block, sizeof(block), offset, f);
+		if (r)
+			return r;
+		block_length += sizeof(block);
 	}
 
 	DEBUG(writer->ctx, "AS section has a length of %zu bytes\n", block_length);
 	header->as_length = htobe32(block_length);
 
-	align_page_boundary(offset, f);
-
-	return 0;
+	return align_page_boundary(offset, f);
 }
 
 struct node {
@@ -512,15 +532,20 @@ static int loc_database_write_networks(struct loc_writer* writer,
 		DEBUG(writer->ctx, "Writing node %p (0 = %d, 1 = %d)\n",
 			node, node->index_zero, node->index_one);
 
-		*offset += fwrite(&db_node, 1, sizeof(db_node), f);
+		r = write_data(&db_node, sizeof(db_node), offset, f);
 		network_tree_length += sizeof(db_node);
 
 		free_node(node);
+
+		if (r)
+			goto ERROR;
 	}
 
 	header->network_tree_length = htobe32(network_tree_length);
 
-	align_page_boundary(offset, f);
+	r = align_page_boundary(offset, f);
+	if (r)
+		goto ERROR;
 
 	DEBUG(writer->ctx, "Networks data section starts at %jd bytes\n", (intmax_t)*offset);
 	header->network_data_offset = htobe32(*offset);
@@ -537,15 +562,15 @@ static int loc_database_write_networks(struct loc_writer* writer,
 		if (r)
 			goto ERROR;
 
-		*offset += fwrite(&db_network, 1, sizeof(db_network), f);
+		r = write_data(&db_network, sizeof(db_network), offset, f);
+		if (r)
+			goto ERROR;
 		network_data_length += sizeof(db_network);
 	}
 
 	header->network_data_length = htobe32(network_data_length);
 
-	align_page_boundary(offset, f);
-
-	return 0;
+	return align_page_boundary(offset, f);
 
 ERROR:
 	// Release everything that is still waiting in the queues
@@ -578,6 +603,7 @@ static int loc_database_write_countries(struct loc_writer* writer,
 
 	struct loc_database_country_v1 block;
 	size_t block_length = 0;
+	int r;
 
 	for (unsigned int i = 0; i < countries_count; i++) {
 		struct loc_country* country = loc_country_list_get(writer->country_list, i);
@@ -587,20 +613,20 @@ static int loc_database_write_countries(struct loc_writer* writer,
 		// Convert country into database format
 		loc_country_to_database_v1(country, writer->pool, &block);
 
-		// Write to disk
-		*offset += fwrite(&block, 1, sizeof(block), f);
-		block_length += sizeof(block);
-
 		// Unref country
 		loc_country_unref(country);
+
+		// Write to disk
+		r = write_data(&block, sizeof(block), offset, f);
+		if (r)
+			return r;
+		block_length += sizeof(block);
 	}
 
 	DEBUG(writer->ctx, "Countries section has a length of %zu bytes\n", block_length);
 	header->countries_length = htobe32(block_length);
 
-	align_page_boundary(offset, f);
-
-	return 0;
+	return align_page_boundary(offset, f);
 }
 
 static int loc_writer_create_signature(struct loc_writer* writer,
@@ -744,7 +770,9 @@ LOC_EXPORT int loc_writer_write(struct loc_writer* writer, FILE* f, enum loc_dat
 		return r;
 
 	// Write the magic
-	offset += fwrite(&magic, 1, sizeof(magic), f);
+	r = write_data(&magic, sizeof(magic), &offset, f);
+	if (r)
+		return r;
 
 	// Skip the space we need to write the header later
 	r = fseek(f, sizeof(header), SEEK_CUR);
@@ -754,7 +782,9 @@ LOC_EXPORT int loc_writer_write(struct loc_writer* writer, FILE* f, enum loc_dat
 	}
 	offset += sizeof(header);
 
-	align_page_boundary(&offset, f);
+	r = align_page_boundary(&offset, f);
+	if (r)
+		return r;
 
 	// Write all ASes
 	r = loc_database_write_as_section(writer, &header, &offset, f);
@@ -824,7 +854,7 @@ LOC_EXPORT int loc_writer_write(struct loc_writer* writer, FILE* f, enum loc_dat
 	bytes_written = fwrite(&header, 1, sizeof(header), f);
 	if (bytes_written < sizeof(header)) {
 		ERROR(writer->ctx, "Could not write header: %s\n", strerror(errno));
-		return r;
+		return 1;
 	}
 
 	// Seek back to the end
@@ -833,7 +863,11 @@ LOC_EXPORT int loc_writer_write(struct loc_writer* writer, FILE* f, enum loc_dat
 		return r;
 
 	// Flush everything
-	fflush(f);
+	r = fflush(f);
+	if (r) {
+		ERROR(writer->ctx, "Could not flush the database: %m\n");
+		return r;
+	}
 
-	return r;
+	return 0;
 }
-- 
2.43.0


From 09c63a281b0e5770dd34590a7d76b88bacef17b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:25 +0000
Subject: [PATCH 22/87] fix: writer: do not report success when the database
 could not be signed

OpenSSL returns zero on errors which was passed on to the caller as success.
---
 src/writer.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/writer.c b/src/writer.c
index b293cbb..97f24be 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -641,11 +641,14 @@ static int loc_writer_create_signature(struct loc_writer* writer,
 
 	// Create a new context for signing
 	EVP_MD_CTX* mdctx = EVP_MD_CTX_new();
+	if (!mdctx)
+		return -1;
 
 	// Initialise the context
 	int r = EVP_DigestSignInit(mdctx, NULL, NULL, NULL, private_key);
 	if (r != 1) {
 		ERROR(writer->ctx, "%s\n", ERR_error_string(ERR_get_error(), NULL));
+		r = -1;
 		goto END;
 	}
 
@@ -664,6 +667,7 @@ static int loc_writer_create_signature(struct loc_writer* writer,
 	r = EVP_DigestSignUpdate(mdctx, &magic, sizeof(magic));
 	if (r != 1) {
 		ERROR(writer->ctx, "%s\n", ERR_error_string(ERR_get_error(), NULL));
+		r = -1;
 		goto END;
 	}
 
@@ -673,11 +677,16 @@ static int loc_writer_create_signature(struct loc_writer* writer,
 	r = EVP_DigestSignUpdate(mdctx, header, sizeof(*header));
 	if (r != 1) {
 		ERROR(writer->ctx, "%s\n", ERR_error_string(ERR_get_error(), NULL));
+		r = -1;
 		goto END;
 	}
 
 	// Skip header
-	fseek(f, sizeof(*header), SEEK_CUR);
+	r = fseek(f, sizeof(*header), SEEK_CUR);
+	if (r) {
+		ERROR(writer->ctx, "Could not seek behind the header: %m\n");
+		goto END;
+	}
 
 	// Walk through the file in chunks of 64kB
 	char buffer[64 * 1024];
-- 
2.43.0


From 1d43f37ed60cebb24e47bb7e7801634279079732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:25 +0000
Subject: [PATCH 23/87] fix: country: always write all fields of the database
 object

A country without a continent code was written with the continent code of the
country before it.
---
 src/country.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/country.c b/src/country.c
index d928a9d..45ce387 100644
--- a/src/country.c
+++ b/src/country.c
@@ -179,12 +179,10 @@ int loc_country_to_database_v1(struct loc_country* country,
 	off_t name = 0;
 
 	// Add country code
-	if (*country->code)
-		loc_country_code_copy(dbobj->code, country->code);
+	loc_country_code_copy(dbobj->code, country->code);
 
 	// Add continent code
-	if (*country->continent_code)
-		loc_country_code_copy(dbobj->continent_code, country->continent_code);
+	loc_country_code_copy(dbobj->continent_code, country->continent_code);
 
 	// Save the name string in the string pool
 	if (country->name)
-- 
2.43.0


From 8fbe5ae0e11c8b1c67f47301e52117bf7516d577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:37 +0000
Subject: [PATCH 24/87] fix: network: do not write uninitialised padding into
 the database

This leaked stack content into the file and made the output irreproducible.
---
 src/network.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/network.c b/src/network.c
index b4daa72..a99ee9b 100644
--- a/src/network.c
+++ b/src/network.c
@@ -651,6 +651,9 @@ int loc_network_merge(struct loc_network** n,
 }
 
 int loc_network_to_database_v1(struct loc_network* network, struct loc_database_network_v1* dbobj) {
+	// Clear everything (including any padding)
+	memset(dbobj, '\0', sizeof(*dbobj));
+
 	// Add country code
 	loc_country_code_copy(dbobj->country_code, network->country_code);
 
-- 
2.43.0


From 6f08bbdbd3340310567187f023df1017e15ac0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:26 +0000
Subject: [PATCH 25/87] fix: database: do not let the boundary check wrap for
 objects larger than the file

---
 src/database.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/database.c b/src/database.c
index 07fcff9..3fb4095 100644
--- a/src/database.c
+++ b/src/database.c
@@ -152,7 +152,7 @@ static inline int __loc_database_check_boundaries(struct loc_database* db,
 	size_t offset = p - db->data;
 
 	// Return if everything is within the boundary
-	if (offset <= db->length - length)
+	if (length <= (size_t)db->length && offset <= db->length - length)
 		return 1;
 
 	DEBUG(db->ctx, "Database read check failed at %p for %zu byte(s)\n", p, length);
-- 
2.43.0


From 05fa9840b364e516bc30045f2b6f99cd63a6ec20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:26 +0000
Subject: [PATCH 26/87] fix: database: detect when the file descriptor cannot
 be cloned and do not leak it

---
 src/database.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/database.c b/src/database.c
index 3fb4095..ab7c6b4 100644
--- a/src/database.c
+++ b/src/database.c
@@ -403,7 +403,7 @@ static int loc_database_clone_handle(struct loc_database* db, FILE* f) {
 
 	// Clone file descriptor
 	fd = dup(fd);
-	if (!fd) {
+	if (fd < 0) {
 		ERROR(db->ctx, "Could not duplicate file descriptor\n");
 		return 1;
 	}
@@ -412,6 +412,7 @@ static int loc_database_clone_handle(struct loc_database* db, FILE* f) {
 	db->f = fdopen(fd, "r");
 	if (!db->f) {
 		ERROR(db->ctx, "Could not re-open database file\n");
+		close(fd);
 		return 1;
 	}
 
-- 
2.43.0


From 0d4a1bcf9fb9bd4680d036a7f3906be8b92c791b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:26 +0000
Subject: [PATCH 27/87] fix: database: do not follow the tree beyond the last
 bit of an address

---
 src/database.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/database.c b/src/database.c
index ab7c6b4..243f698 100644
--- a/src/database.c
+++ b/src/database.c
@@ -889,14 +889,20 @@ static int __loc_database_lookup(struct loc_database* db, const struct in6_addr*
 	if (!node_v1)
 		return 1;
 
+	// There cannot be anything below a host address
+	if (level >= 128) {
+		node_index = 0;
+
 	// Follow the path
-	int bit = loc_address_get_bit(address, level);
-	loc_address_set_bit(network_address, level, bit);
+	} else {
+		int bit = loc_address_get_bit(address, level);
+		loc_address_set_bit(network_address, level, bit);
 
-	if (bit == 0)
-		node_index = be32toh(node_v1->zero);
-	else
-		node_index = be32toh(node_v1->one);
+		if (bit == 0)
+			node_index = be32toh(node_v1->zero);
+		else
+			node_index = be32toh(node_v1->one);
+	}
 
 	// If the node index is zero, the tree ends here
 	// and we cannot descend any further
-- 
2.43.0


From 79a90d0497137877dbb2762378886f8792dedb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:26 +0000
Subject: [PATCH 28/87] fix: database: do not write beyond the end of the
 enumerator's stack

---
 src/database.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/database.c b/src/database.c
index 243f698..af848ca 100644
--- a/src/database.c
+++ b/src/database.c
@@ -1278,7 +1278,7 @@ static int loc_database_enumerator_stack_push_node(
 		return 0;
 
 	// Check if there is any space left on the stack
-	if (e->network_stack_depth >= MAX_STACK_DEPTH) {
+	if (e->network_stack_depth >= MAX_STACK_DEPTH - 1) {
 		ERROR(e->ctx, "Maximum stack size reached: %d\n", e->network_stack_depth);
 		return 1;
 	}
-- 
2.43.0


From 8a513575c5b10419510643e90cf4940fcd80cfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:26 +0000
Subject: [PATCH 29/87] fix: database: do not enumerate trees that are deeper
 than an address is long

---
 src/database.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/database.c b/src/database.c
index af848ca..c7a709f 100644
--- a/src/database.c
+++ b/src/database.c
@@ -1283,6 +1283,13 @@ static int loc_database_enumerator_stack_push_node(
 		return 1;
 	}
 
+	// Check if the path is not longer than an address
+	if (depth > 128) {
+		ERROR(e->ctx, "Network tree is too deep: %d\n", depth);
+		errno = ERANGE;
+		return 1;
+	}
+
 	// Check if the node is in range
 	if (offset >= (off_t)e->db->network_node_objects.count) {
 		ERROR(e->ctx, "Trying to add invalid node with offset %jd/%zu\n",
-- 
2.43.0


From babf4029c236ac767843c332379c7142d2b15a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:26 +0000
Subject: [PATCH 30/87] fix: database: do not enumerate the root node when the
 tree is empty

---
 src/database.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/database.c b/src/database.c
index c7a709f..11e7e44 100644
--- a/src/database.c
+++ b/src/database.c
@@ -1383,6 +1383,12 @@ static int __loc_database_enumerator_next_network(
 
 		DEBUG(enumerator->ctx, "  Got node: %jd\n", node->offset);
 
+		// Check if the node exists (the tree might not even have a root)
+		if (node->offset >= (off_t)enumerator->db->network_node_objects.count) {
+			errno = ERANGE;
+			return 1;
+		}
+
 		// Remove the node from the stack if we have already visited it
 		if (enumerator->networks_visited[node->offset]) {
 			enumerator->network_stack_depth--;
-- 
2.43.0


From 2e64cb7d44c7f4b85f84fa864d8451f3efe169d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:26 +0000
Subject: [PATCH 31/87] fix: database: do not leave the network untouched when
 not enumerating networks

---
 src/database.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/database.c b/src/database.c
index 11e7e44..c09dc47 100644
--- a/src/database.c
+++ b/src/database.c
@@ -1716,6 +1716,7 @@ LOC_EXPORT int loc_database_enumerator_next_network(
 			return __loc_database_enumerator_next_bogon(enumerator, network);
 
 		default:
+			*network = NULL;
 			return 0;
 	}
 }
-- 
2.43.0


From cd972d657ceaedf24e27f165b39c667543da8b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:26 +0000
Subject: [PATCH 32/87] fix: stringpool: refuse to open a pool whose last
 string is not terminated

---
 src/stringpool.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/stringpool.c b/src/stringpool.c
index 45c57ca..9dcf9bf 100644
--- a/src/stringpool.c
+++ b/src/stringpool.c
@@ -119,6 +119,13 @@ int loc_stringpool_open(struct loc_ctx* ctx, struct loc_stringpool** pool,
 		const char* data, const size_t length) {
 	struct loc_stringpool* p = NULL;
 
+	// The last string must be terminated
+	if (length && data[length - 1]) {
+		ERROR(ctx, "The string pool is not terminated\n");
+		errno = EINVAL;
+		return 1;
+	}
+
 	// Allocate a new stringpool
 	int r = loc_stringpool_new(ctx, &p);
 	if (r)
-- 
2.43.0


From 95cc1cd0fa4d77540b865b6e972438b5c7a3a58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:06 +0000
Subject: [PATCH 33/87] fix: database: check if the message digest context
 could be allocated

---
 src/database.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/database.c b/src/database.c
index c09dc47..58cf347 100644
--- a/src/database.c
+++ b/src/database.c
@@ -553,6 +553,12 @@ LOC_EXPORT int loc_database_verify(struct loc_database* db, FILE* f) {
 	int r = 0;
 
 	EVP_MD_CTX* mdctx = EVP_MD_CTX_new();
+	if (!mdctx) {
+		ERROR(db->ctx, "Could not allocate the message digest context\n");
+		r = 1;
+
+		goto CLEANUP;
+	}
 
 	// Initialise hash function
 	r = EVP_DigestVerifyInit(mdctx, NULL, NULL, NULL, pkey);
-- 
2.43.0


From 3d725635894d8db047d935813507bac5f0d586f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:06 +0000
Subject: [PATCH 34/87] fix: database: do not loop forever when the database
 cannot be read for verification

---
 src/database.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/database.c b/src/database.c
index 58cf347..b030853 100644
--- a/src/database.c
+++ b/src/database.c
@@ -637,6 +637,14 @@ LOC_EXPORT int loc_database_verify(struct loc_database* db, FILE* f) {
 	while (!feof(db->f)) {
 		bytes_read = fread(buffer, 1, sizeof(buffer), db->f);
 
+		// Stop if we could not read everything
+		if (ferror(db->f)) {
+			ERROR(db->ctx, "Could not read the database: %m\n");
+			r = 1;
+
+			goto CLEANUP;
+		}
+
 		hexdump(db->ctx, buffer, bytes_read);
 
 		r = EVP_DigestVerifyUpdate(mdctx, buffer, bytes_read);
-- 
2.43.0


From 773cce0bfa1e0fcfa06e3bf8c07441cc3c717daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:06 +0000
Subject: [PATCH 35/87] fix: address: do not count trailing zeroes of an octet
 without any ones

---
 src/libloc/address.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/libloc/address.h b/src/libloc/address.h
index 082c33f..fd78a37 100644
--- a/src/libloc/address.h
+++ b/src/libloc/address.h
@@ -143,12 +143,8 @@ static inline unsigned int loc_address_bit_length(const struct in6_addr* address
 
 	// Walk backwards until we find the first one
 	foreach_octet_in_address_reverse(octet, address) {
-		// Count all trailing zeroes
-		int trailing_zeroes = __builtin_ctz(address->s6_addr[octet]);
-
-		// We only have one byte
-		if (trailing_zeroes > 8)
-			trailing_zeroes = 8;
+		// Count all trailing zeroes (which is not defined if there are no ones)
+		int trailing_zeroes = (address->s6_addr[octet]) ? __builtin_ctz(address->s6_addr[octet]) : 8;
 
 		// Remove any trailing zeroes from the total length
 		bitlength -= trailing_zeroes;
-- 
2.43.0


From d73c5b8a04aaca2a12ca2b1576285443c58640dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:06 +0000
Subject: [PATCH 36/87] fix: address: an IPv6 address only has sixteen octets

---
 src/libloc/address.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libloc/address.h b/src/libloc/address.h
index fd78a37..7f647a1 100644
--- a/src/libloc/address.h
+++ b/src/libloc/address.h
@@ -316,7 +316,7 @@ static inline int loc_address_get_octet(const struct in6_addr* address, const un
 		return (address->s6_addr32[3] >> (i * 8)) & 0xff;
 
 	} else {
-		if (i >= 32)
+		if (i >= 16)
 			return -ERANGE;
 
 		return address->s6_addr[i];
-- 
2.43.0


From 037bfb2357fd315d178a5b02b1c73bf39dcc8700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:20 +0000
Subject: [PATCH 37/87] fix: resolv: do not terminate the TXT record beyond the
 end of the reply

---
 src/resolv.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/resolv.c b/src/resolv.c
index 1c4cd75..54dade7 100644
--- a/src/resolv.c
+++ b/src/resolv.c
@@ -56,13 +56,14 @@ LOC_EXPORT int loc_discover_latest_version(struct loc_ctx* ctx,
     char domain[64];
     snprintf(domain, 63, LOC_DATABASE_DOMAIN, version);
 
-    unsigned char answer[PACKETSZ];
+    // Leave some space to terminate the string
+    unsigned char answer[PACKETSZ + 1];
     int len;
 
     DEBUG(ctx, "Querying %s\n", domain);
 
     // Send a query
-    if ((len = res_query(domain, C_IN, T_TXT, answer, sizeof(answer))) < 0 || len > PACKETSZ) {
+    if ((len = res_query(domain, C_IN, T_TXT, answer, PACKETSZ)) < 0 || len > PACKETSZ) {
         ERROR(ctx, "Could not query %s: \n", domain);
 
         return -1;
-- 
2.43.0


From b511c066d00aa562bcaaa4e54fd1bdafb02cb2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:28 +0000
Subject: [PATCH 38/87] fix: country: do not keep a released name when the name
 is being removed

---
 src/country.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/country.c b/src/country.c
index 45ce387..e842970 100644
--- a/src/country.c
+++ b/src/country.c
@@ -126,6 +126,8 @@ LOC_EXPORT int loc_country_set_name(struct loc_country* country, const char* nam
 	if (country->name)
 		free(country->name);
 
+	country->name = NULL;
+
 	if (name) {
 		country->name = strdup(name);
 
-- 
2.43.0


From 5b497937f219275db5509daaa94e3e23706a1a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:28 +0000
Subject: [PATCH 39/87] fix: as: report when the name could not be copied

---
 src/as.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/as.c b/src/as.c
index 97c0a56..20eec2f 100644
--- a/src/as.c
+++ b/src/as.c
@@ -93,10 +93,15 @@ LOC_EXPORT int loc_as_set_name(struct loc_as* as, const char* name) {
 	if (as->name)
 		free(as->name);
 
-	if (name)
+	if (name) {
 		as->name = strdup(name);
-	else
+
+		// Report error if we could not copy the string
+		if (!as->name)
+			return 1;
+	} else {
 		as->name = NULL;
+	}
 
 	return 0;
 }
@@ -123,6 +128,7 @@ int loc_as_new_from_database_v1(struct loc_ctx* ctx, struct loc_stringpool* pool
 	r = loc_as_set_name(*as, name);
 	if (r) {
 		loc_as_unref(*as);
+		*as = NULL;
 		return r;
 	}
 
-- 
2.43.0


From 4b89f093c603dcb0debb3a7813cd9c07527f9d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:28 +0000
Subject: [PATCH 40/87] fix: writer: do not write objects whose name is not in
 the string pool

---
 src/as.c      |  3 +++
 src/country.c |  5 ++++-
 src/writer.c  | 10 ++++++++--
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/as.c b/src/as.c
index 20eec2f..48f24b8 100644
--- a/src/as.c
+++ b/src/as.c
@@ -141,6 +141,9 @@ int loc_as_to_database_v1(struct loc_as* as, struct loc_stringpool* pool,
 
 	// Save the name string in the string pool
 	off_t name = loc_stringpool_add(pool, as->name ? as->name : "");
+	if (name < 0)
+		return 1;
+
 	dbobj->name = htobe32(name);
 
 	return 0;
diff --git a/src/country.c b/src/country.c
index e842970..5916fa5 100644
--- a/src/country.c
+++ b/src/country.c
@@ -187,8 +187,11 @@ int loc_country_to_database_v1(struct loc_country* country,
 	loc_country_code_copy(dbobj->continent_code, country->continent_code);
 
 	// Save the name string in the string pool
-	if (country->name)
+	if (country->name) {
 		name = loc_stringpool_add(pool, country->name);
+		if (name < 0)
+			return 1;
+	}
 
 	dbobj->name = htobe32(name);
 
diff --git a/src/writer.c b/src/writer.c
index 97f24be..9a51099 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -359,11 +359,14 @@ static int loc_database_write_as_section(struct loc_writer* writer,
 			return 1;
 
 		// Convert AS into database format
-		loc_as_to_database_v1(as, writer->pool, &block);
+		r = loc_as_to_database_v1(as, writer->pool, &block);
 
 		// Unref AS
 		loc_as_unref(as);
 
+		if (r)
+			return r;
+
 		// Write to disk
 		r = write_data(&block, sizeof(block), offset, f);
 		if (r)
@@ -611,11 +614,14 @@ static int loc_database_write_countries(struct loc_writer* writer,
 			return 1;
 
 		// Convert country into database format
-		loc_country_to_database_v1(country, writer->pool, &block);
+		r = loc_country_to_database_v1(country, writer->pool, &block);
 
 		// Unref country
 		loc_country_unref(country);
 
+		if (r)
+			return r;
+
 		// Write to disk
 		r = write_data(&block, sizeof(block), offset, f);
 		if (r)
-- 
2.43.0


From 3b281363e30e82be22f37b6ea9ad4775841f661c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:28 +0000
Subject: [PATCH 41/87] fix: network: do not return an incomplete list when
 excluding networks failed

---
 src/network.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/network.c b/src/network.c
index a99ee9b..fc6dfa8 100644
--- a/src/network.c
+++ b/src/network.c
@@ -552,9 +552,14 @@ LOC_EXPORT struct loc_network_list* loc_network_exclude_list(
 			if (loc_network_overlaps(subnet, subnet_to_check)) {
 				passed = 0;
 
-				__loc_network_exclude_to_list(subnet_to_check, subnet, to_check);
+				r = __loc_network_exclude_to_list(subnet_to_check, subnet, to_check);
 
 				loc_network_unref(subnet);
+
+				if (r) {
+					loc_network_unref(subnet_to_check);
+					goto ERROR;
+				}
 				break;
 			}
 
@@ -576,6 +581,10 @@ LOC_EXPORT struct loc_network_list* loc_network_exclude_list(
 
 		if (passed) {
 			r = loc_network_list_push(subnets, subnet_to_check);
+			if (r) {
+				loc_network_unref(subnet_to_check);
+				goto ERROR;
+			}
 		}
 
 		loc_network_unref(subnet_to_check);
@@ -584,6 +593,12 @@ LOC_EXPORT struct loc_network_list* loc_network_exclude_list(
 	loc_network_list_unref(to_check);
 
 	return subnets;
+
+ERROR:
+	loc_network_list_unref(to_check);
+	loc_network_list_unref(subnets);
+
+	return NULL;
 }
 
 int loc_network_merge(struct loc_network** n,
-- 
2.43.0


From 1b4164c4bcdf63d8453916aec05d65c79fb7b172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:28 +0000
Subject: [PATCH 42/87] fix: database: do not answer with a less specific
 network after an error

---
 src/database.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/database.c b/src/database.c
index b030853..959e5cd 100644
--- a/src/database.c
+++ b/src/database.c
@@ -882,7 +882,7 @@ static int __loc_database_lookup_handle_leaf(struct loc_database* db, const stru
 
 		loc_network_unref(*network);
 		*network = NULL;
-		return 1;
+		return 0;
 	}
 
 	// A network was found and the IP address matches
@@ -931,7 +931,7 @@ static int __loc_database_lookup(struct loc_database* db, const struct in6_addr*
 		r = __loc_database_lookup(db, address, network, network_address, node_index, level + 1);
 
 		// Raise any errors
-		if (r < 0)
+		if (r)
 			return r;
 
 		// End here if a result was found
@@ -946,7 +946,7 @@ static int __loc_database_lookup(struct loc_database* db, const struct in6_addr*
 	// If this node has a leaf, we will check if it matches
 	if (__loc_database_node_is_leaf(node_v1)) {
 		r = __loc_database_lookup_handle_leaf(db, address, network, network_address, level, node_v1);
-		if (r < 0)
+		if (r)
 			return r;
 	}
 
-- 
2.43.0


From 9f93108fc158a8bfa8313c9c19f2f3711024d544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:00 +0000
Subject: [PATCH 43/87] fix: python: accept and show all 32-bit AS numbers

---
 src/python/as.c       | 18 ++++++++++++------
 src/python/database.c | 21 ++++++++++++++++++---
 src/python/writer.c   | 10 ++++++++--
 3 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/src/python/as.c b/src/python/as.c
index 2f4b26f..4e0a80f 100644
--- a/src/python/as.c
+++ b/src/python/as.c
@@ -45,11 +45,17 @@ static void AS_dealloc(ASObject* self) {
 }
 
 static int AS_init(ASObject* self, PyObject* args, PyObject* kwargs) {
-	uint32_t number = 0;
+	long long int number = 0;
 
-	if (!PyArg_ParseTuple(args, "i", &number))
+	if (!PyArg_ParseTuple(args, "L", &number))
 		return -1;
 
+	// Check if the ASN is within the valid range
+	if (number < 0 || number > UINT32_MAX) {
+		PyErr_Format(PyExc_OverflowError, "Invalid ASN %lld", number);
+		return -1;
+	}
+
 	// Create the AS object
 	int r = loc_as_new(loc_ctx, &self->as, number);
 	if (r)
@@ -63,9 +69,9 @@ static PyObject* AS_repr(ASObject* self) {
 	const char* name = loc_as_get_name(self->as);
 
 	if (name)
-		return PyUnicode_FromFormat("<AS %d (%s)>", number, name);
+		return PyUnicode_FromFormat("<AS %u (%s)>", number, name);
 
-	return PyUnicode_FromFormat("<AS %d>", number);
+	return PyUnicode_FromFormat("<AS %u>", number);
 }
 
 static PyObject* AS_str(ASObject* self) {
@@ -73,9 +79,9 @@ static PyObject* AS_str(ASObject* self) {
 	const char* name = loc_as_get_name(self->as);
 
 	if (name)
-		return PyUnicode_FromFormat("AS%d - %s", number, name);
+		return PyUnicode_FromFormat("AS%u - %s", number, name);
 
-	return PyUnicode_FromFormat("AS%d", number);
+	return PyUnicode_FromFormat("AS%u", number);
 }
 
 static PyObject* AS_get_number(ASObject* self) {
diff --git a/src/python/database.c b/src/python/database.c
index f84b003..41c1191 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -141,11 +141,17 @@ static PyObject* Database_get_created_at(DatabaseObject* self) {
 
 static PyObject* Database_get_as(DatabaseObject* self, PyObject* args) {
 	struct loc_as* as = NULL;
-	uint32_t number = 0;
+	long long int number = 0;
 
-	if (!PyArg_ParseTuple(args, "i", &number))
+	if (!PyArg_ParseTuple(args, "L", &number))
 		return NULL;
 
+	// Check if the ASN is within the valid range
+	if (number < 0 || number > UINT32_MAX) {
+		PyErr_Format(PyExc_OverflowError, "Invalid ASN %lld", number);
+		return NULL;
+	}
+
 	// Try to retrieve the AS
 	int r = loc_database_get_as(self->db, &as, number);
 
@@ -393,7 +399,16 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 				return NULL;
 			}
 
-			unsigned long number = PyLong_AsLong(item);
+			long long int number = PyLong_AsLongLong(item);
+
+			// Check if the ASN is within the valid range
+			if (number < 0 || number > UINT32_MAX) {
+				if (!PyErr_Occurred())
+					PyErr_Format(PyExc_OverflowError, "Invalid ASN %lld", number);
+
+				loc_as_list_unref(asns);
+				return NULL;
+			}
 
 			struct loc_as* as;
 			r = loc_as_new(loc_ctx, &as, number);
diff --git a/src/python/writer.c b/src/python/writer.c
index 1c06384..bb94460 100644
--- a/src/python/writer.c
+++ b/src/python/writer.c
@@ -147,11 +147,17 @@ static int Writer_set_license(WriterObject* self, PyObject* value) {
 
 static PyObject* Writer_add_as(WriterObject* self, PyObject* args) {
 	struct loc_as* as;
-	uint32_t number = 0;
+	long long int number = 0;
 
-	if (!PyArg_ParseTuple(args, "i", &number))
+	if (!PyArg_ParseTuple(args, "L", &number))
 		return NULL;
 
+	// Check if the ASN is within the valid range
+	if (number < 0 || number > UINT32_MAX) {
+		PyErr_Format(PyExc_OverflowError, "Invalid ASN %lld", number);
+		return NULL;
+	}
+
 	// Create AS object
 	int r = loc_writer_add_as(self->writer, &as, number);
 	if (r)
-- 
2.43.0


From d680e2eaae36b2d089ed297b3a2c22eb21fdc714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:00 +0000
Subject: [PATCH 44/87] fix: python: do not compare with objects that only
 claim to be of our type

---
 src/python/as.c      | 2 +-
 src/python/country.c | 2 +-
 src/python/network.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/as.c b/src/python/as.c
index 4e0a80f..40f8528 100644
--- a/src/python/as.c
+++ b/src/python/as.c
@@ -112,7 +112,7 @@ static PyObject* AS_richcompare(ASObject* self, PyObject* other, int op) {
 	int r;
 
 	// Check for type
-	if (!PyObject_IsInstance(other, (PyObject *)&ASType))
+	if (!PyObject_TypeCheck(other, &ASType))
 		Py_RETURN_NOTIMPLEMENTED;
 
 	ASObject* o = (ASObject*)other;
diff --git a/src/python/country.c b/src/python/country.c
index 7114846..8bda609 100644
--- a/src/python/country.c
+++ b/src/python/country.c
@@ -125,7 +125,7 @@ static PyObject* Country_richcompare(CountryObject* self, PyObject* other, int o
 	int r;
 
 	// Check for type
-	if (!PyObject_IsInstance(other, (PyObject *)&CountryType))
+	if (!PyObject_TypeCheck(other, &CountryType))
 		Py_RETURN_NOTIMPLEMENTED;
 
 	CountryObject* o = (CountryObject*)other;
diff --git a/src/python/network.c b/src/python/network.c
index 4bae918..9b2a3c5 100644
--- a/src/python/network.c
+++ b/src/python/network.c
@@ -252,7 +252,7 @@ static PyObject* Network_richcompare(NetworkObject* self, PyObject* other, int o
 	int r;
 
 	// Check for type
-	if (!PyObject_IsInstance(other, (PyObject *)&NetworkType))
+	if (!PyObject_TypeCheck(other, &NetworkType))
 		Py_RETURN_NOTIMPLEMENTED;
 
 	NetworkObject* o = (NetworkObject*)other;
-- 
2.43.0


From 570233c1d38f406610fd4aeebe84f0758ead5fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:00 +0000
Subject: [PATCH 45/87] fix: python: raise an exception when an attribute is
 deleted or set to something else than a string

---
 src/python/as.c      | 14 ++++++++++++--
 src/python/country.c | 28 ++++++++++++++++++++++++----
 src/python/network.c | 20 +++++++++++++++++++-
 src/python/writer.c  | 42 ++++++++++++++++++++++++++++++++++++------
 4 files changed, 91 insertions(+), 13 deletions(-)

diff --git a/src/python/as.c b/src/python/as.c
index 40f8528..996b3fb 100644
--- a/src/python/as.c
+++ b/src/python/as.c
@@ -97,12 +97,22 @@ static PyObject* AS_get_name(ASObject* self) {
 }
 
 static int AS_set_name(ASObject* self, PyObject* value) {
-	const char* name = PyUnicode_AsUTF8(value);
+	const char* name = NULL;
+
+	// The attribute cannot be deleted
+	if (!value) {
+		PyErr_SetString(PyExc_TypeError, "Cannot delete attribute");
+		return -1;
+	}
+
+	name = PyUnicode_AsUTF8(value);
+	if (!name)
+		return -1;
 
 	int r = loc_as_set_name(self->as, name);
 	if (r) {
 		PyErr_Format(PyExc_ValueError, "Could not set name: %s", name);
-		return r;
+		return -1;
 	}
 
 	return 0;
diff --git a/src/python/country.c b/src/python/country.c
index 8bda609..6b8b035 100644
--- a/src/python/country.c
+++ b/src/python/country.c
@@ -89,12 +89,22 @@ static PyObject* Country_get_name(CountryObject* self) {
 }
 
 static int Country_set_name(CountryObject* self, PyObject* value) {
-	const char* name = PyUnicode_AsUTF8(value);
+	const char* name = NULL;
+
+	// The attribute cannot be deleted
+	if (!value) {
+		PyErr_SetString(PyExc_TypeError, "Cannot delete attribute");
+		return -1;
+	}
+
+	name = PyUnicode_AsUTF8(value);
+	if (!name)
+		return -1;
 
 	int r = loc_country_set_name(self->country, name);
 	if (r) {
 		PyErr_Format(PyExc_ValueError, "Could not set name: %s", name);
-		return r;
+		return -1;
 	}
 
 	return 0;
@@ -110,12 +120,22 @@ static PyObject* Country_get_continent_code(CountryObject* self) {
 }
 
 static int Country_set_continent_code(CountryObject* self, PyObject* value) {
-	const char* code = PyUnicode_AsUTF8(value);
+	const char* code = NULL;
+
+	// The attribute cannot be deleted
+	if (!value) {
+		PyErr_SetString(PyExc_TypeError, "Cannot delete attribute");
+		return -1;
+	}
+
+	code = PyUnicode_AsUTF8(value);
+	if (!code)
+		return -1;
 
 	int r = loc_country_set_continent_code(self->country, code);
 	if (r) {
 		PyErr_Format(PyExc_ValueError, "Could not set continent code: %s", code);
-		return r;
+		return -1;
 	}
 
 	return 0;
diff --git a/src/python/network.c b/src/python/network.c
index 9b2a3c5..6f5efa0 100644
--- a/src/python/network.c
+++ b/src/python/network.c
@@ -102,7 +102,17 @@ static PyObject* Network_get_country_code(NetworkObject* self) {
 }
 
 static int Network_set_country_code(NetworkObject* self, PyObject* value) {
-	const char* country_code = PyUnicode_AsUTF8(value);
+	const char* country_code = NULL;
+
+	// The attribute cannot be deleted
+	if (!value) {
+		PyErr_SetString(PyExc_TypeError, "Cannot delete attribute");
+		return -1;
+	}
+
+	country_code = PyUnicode_AsUTF8(value);
+	if (!country_code)
+		return -1;
 
 	int r = loc_network_set_country_code(self->network, country_code);
 	if (r) {
@@ -126,7 +136,15 @@ static PyObject* Network_get_asn(NetworkObject* self) {
 }
 
 static int Network_set_asn(NetworkObject* self, PyObject* value) {
+	// The attribute cannot be deleted
+	if (!value) {
+		PyErr_SetString(PyExc_TypeError, "Cannot delete attribute");
+		return -1;
+	}
+
 	long int asn = PyLong_AsLong(value);
+	if (asn == -1 && PyErr_Occurred())
+		return -1;
 
 	// Check if the ASN is within the valid range
 	if (asn <= 0) {
diff --git a/src/python/writer.c b/src/python/writer.c
index bb94460..4ad0e72 100644
--- a/src/python/writer.c
+++ b/src/python/writer.c
@@ -98,12 +98,22 @@ static PyObject* Writer_get_vendor(WriterObject* self) {
 }
 
 static int Writer_set_vendor(WriterObject* self, PyObject* value) {
-	const char* vendor = PyUnicode_AsUTF8(value);
+	const char* vendor = NULL;
+
+	// The attribute cannot be deleted
+	if (!value) {
+		PyErr_SetString(PyExc_TypeError, "Cannot delete attribute");
+		return -1;
+	}
+
+	vendor = PyUnicode_AsUTF8(value);
+	if (!vendor)
+		return -1;
 
 	int r = loc_writer_set_vendor(self->writer, vendor);
 	if (r) {
 		PyErr_Format(PyExc_ValueError, "Could not set vendor: %s", vendor);
-		return r;
+		return -1;
 	}
 
 	return 0;
@@ -116,12 +126,22 @@ static PyObject* Writer_get_description(WriterObject* self) {
 }
 
 static int Writer_set_description(WriterObject* self, PyObject* value) {
-	const char* description = PyUnicode_AsUTF8(value);
+	const char* description = NULL;
+
+	// The attribute cannot be deleted
+	if (!value) {
+		PyErr_SetString(PyExc_TypeError, "Cannot delete attribute");
+		return -1;
+	}
+
+	description = PyUnicode_AsUTF8(value);
+	if (!description)
+		return -1;
 
 	int r = loc_writer_set_description(self->writer, description);
 	if (r) {
 		PyErr_Format(PyExc_ValueError, "Could not set description: %s", description);
-		return r;
+		return -1;
 	}
 
 	return 0;
@@ -134,12 +154,22 @@ static PyObject* Writer_get_license(WriterObject* self) {
 }
 
 static int Writer_set_license(WriterObject* self, PyObject* value) {
-	const char* license = PyUnicode_AsUTF8(value);
+	const char* license = NULL;
+
+	// The attribute cannot be deleted
+	if (!value) {
+		PyErr_SetString(PyExc_TypeError, "Cannot delete attribute");
+		return -1;
+	}
+
+	license = PyUnicode_AsUTF8(value);
+	if (!license)
+		return -1;
 
 	int r = loc_writer_set_license(self->writer, license);
 	if (r) {
 		PyErr_Format(PyExc_ValueError, "Could not set license: %s", license);
-		return r;
+		return -1;
 	}
 
 	return 0;
-- 
2.43.0


From 32b23e3c18671459e4044ce2807397fb38f71603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:00 +0000
Subject: [PATCH 46/87] fix: python: return None for names, vendors,
 descriptions and licenses that have not been set

---
 src/python/as.c     | 4 ++++
 src/python/writer.c | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/src/python/as.c b/src/python/as.c
index 996b3fb..4bc5d9f 100644
--- a/src/python/as.c
+++ b/src/python/as.c
@@ -93,6 +93,10 @@ static PyObject* AS_get_number(ASObject* self) {
 static PyObject* AS_get_name(ASObject* self) {
 	const char* name = loc_as_get_name(self->as);
 
+	// Return None if no name has been set
+	if (!name)
+		Py_RETURN_NONE;
+
 	return PyUnicode_FromString(name);
 }
 
diff --git a/src/python/writer.c b/src/python/writer.c
index 4ad0e72..1ca2eb3 100644
--- a/src/python/writer.c
+++ b/src/python/writer.c
@@ -93,6 +93,8 @@ static int Writer_init(WriterObject* self, PyObject* args, PyObject* kwargs) {
 
 static PyObject* Writer_get_vendor(WriterObject* self) {
 	const char* vendor = loc_writer_get_vendor(self->writer);
+	if (!vendor)
+		Py_RETURN_NONE;
 
 	return PyUnicode_FromString(vendor);
 }
@@ -121,6 +123,8 @@ static int Writer_set_vendor(WriterObject* self, PyObject* value) {
 
 static PyObject* Writer_get_description(WriterObject* self) {
 	const char* description = loc_writer_get_description(self->writer);
+	if (!description)
+		Py_RETURN_NONE;
 
 	return PyUnicode_FromString(description);
 }
@@ -149,6 +153,8 @@ static int Writer_set_description(WriterObject* self, PyObject* value) {
 
 static PyObject* Writer_get_license(WriterObject* self) {
 	const char* license = loc_writer_get_license(self->writer);
+	if (!license)
+		Py_RETURN_NONE;
 
 	return PyUnicode_FromString(license);
 }
-- 
2.43.0


From 53460db68cd20ad067fb15b4f9d3dfe6f15db713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:00 +0000
Subject: [PATCH 47/87] fix: python: raise an exception when a network could
 not be formatted

---
 src/python/network.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/python/network.c b/src/python/network.c
index 6f5efa0..cf7b292 100644
--- a/src/python/network.c
+++ b/src/python/network.c
@@ -85,12 +85,20 @@ static int Network_init(NetworkObject* self, PyObject* args, PyObject* kwargs) {
 
 static PyObject* Network_repr(NetworkObject* self) {
 	const char* network = loc_network_str(self->network);
+	if (!network) {
+		PyErr_SetFromErrno(PyExc_OSError);
+		return NULL;
+	}
 
 	return PyUnicode_FromFormat("<location.Network %s>", network);
 }
 
 static PyObject* Network_str(NetworkObject* self) {
 	const char* network = loc_network_str(self->network);
+	if (!network) {
+		PyErr_SetFromErrno(PyExc_OSError);
+		return NULL;
+	}
 
 	return PyUnicode_FromString(network);
 }
-- 
2.43.0


From 57c9f797eec2f8dbf015ffa4cecafcf7d3275384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:00 +0000
Subject: [PATCH 48/87] fix: python: raise an exception whenever something has
 failed

---
 src/python/as.c       |  4 +++-
 src/python/country.c  | 13 ++++++++++++-
 src/python/database.c |  3 +++
 src/python/network.c  |  8 ++++++--
 src/python/writer.c   | 15 ++++++++++++---
 5 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/src/python/as.c b/src/python/as.c
index 4bc5d9f..dd5140f 100644
--- a/src/python/as.c
+++ b/src/python/as.c
@@ -58,8 +58,10 @@ static int AS_init(ASObject* self, PyObject* args, PyObject* kwargs) {
 
 	// Create the AS object
 	int r = loc_as_new(loc_ctx, &self->as, number);
-	if (r)
+	if (r) {
+		PyErr_SetFromErrno(PyExc_OSError);
 		return -1;
+	}
 
 	return 0;
 }
diff --git a/src/python/country.c b/src/python/country.c
index 6b8b035..e79e2ba 100644
--- a/src/python/country.c
+++ b/src/python/country.c
@@ -52,8 +52,19 @@ static int Country_init(CountryObject* self, PyObject* args, PyObject* kwargs) {
 
 	// Create the country object
 	int r = loc_country_new(loc_ctx, &self->country, country_code);
-	if (r)
+	if (r) {
+		switch (errno) {
+			case EINVAL:
+				PyErr_Format(PyExc_ValueError, "Invalid country code: %s", country_code);
+				break;
+
+			default:
+				PyErr_SetFromErrno(PyExc_OSError);
+				break;
+		}
+
 		return -1;
+	}
 
 	return 0;
 }
diff --git a/src/python/database.c b/src/python/database.c
index 41c1191..9237ebe 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -168,6 +168,7 @@ static PyObject* Database_get_as(DatabaseObject* self, PyObject* args) {
 	}
 
 	// Unexpected error
+	PyErr_SetFromErrno(PyExc_OSError);
 	return NULL;
 }
 
@@ -219,9 +220,11 @@ static PyObject* Database_lookup(DatabaseObject* self, PyObject* args) {
 		switch (errno) {
 			case EINVAL:
 				PyErr_Format(PyExc_ValueError, "Invalid IP address: %s", address);
+				break;
 
 			default:
 				PyErr_SetFromErrno(PyExc_OSError);
+				break;
 		}
 
 		return NULL;
diff --git a/src/python/network.c b/src/python/network.c
index cf7b292..24caae1 100644
--- a/src/python/network.c
+++ b/src/python/network.c
@@ -127,6 +127,8 @@ static int Network_set_country_code(NetworkObject* self, PyObject* value) {
 		if (r == -EINVAL)
 			PyErr_Format(PyExc_ValueError,
 				"Invalid country code: %s", country_code);
+		else
+			PyErr_SetFromErrno(PyExc_OSError);
 
 		return -1;
 	}
@@ -169,8 +171,10 @@ static int Network_set_asn(NetworkObject* self, PyObject* value) {
 #endif
 
 	int r = loc_network_set_asn(self->network, asn);
-	if (r)
+	if (r) {
+		PyErr_SetFromErrno(PyExc_OSError);
 		return -1;
+	}
 
 	return 0;
 }
@@ -196,7 +200,7 @@ static PyObject* Network_set_flag(NetworkObject* self, PyObject* args) {
 	int r = loc_network_set_flag(self->network, flag);
 
 	if (r) {
-		// What exception to throw here?
+		PyErr_SetFromErrno(PyExc_OSError);
 		return NULL;
 	}
 
diff --git a/src/python/writer.c b/src/python/writer.c
index 1ca2eb3..a8d60a6 100644
--- a/src/python/writer.c
+++ b/src/python/writer.c
@@ -196,8 +196,10 @@ static PyObject* Writer_add_as(WriterObject* self, PyObject* args) {
 
 	// Create AS object
 	int r = loc_writer_add_as(self->writer, &as, number);
-	if (r)
+	if (r) {
+		PyErr_SetFromErrno(PyExc_OSError);
 		return NULL;
+	}
 
 	PyObject* obj = new_as(&ASType, as);
 	loc_as_unref(as);
@@ -217,12 +219,15 @@ static PyObject* Writer_add_country(WriterObject* self, PyObject* args) {
 	if (r) {
 		switch (r) {
 			case -EINVAL:
-				PyErr_SetString(PyExc_ValueError, "Invalid network");
+				PyErr_SetString(PyExc_ValueError, "Invalid country code");
 				break;
 
 			default:
-				return NULL;
+				PyErr_SetFromErrno(PyExc_OSError);
+				break;
 		}
+
+		return NULL;
 	}
 
 	PyObject* obj = new_country(&CountryType, country);
@@ -249,6 +254,10 @@ static PyObject* Writer_add_network(WriterObject* self, PyObject* args) {
 			case -EBUSY:
 				PyErr_SetString(PyExc_IndexError, "A network already exists here");
 				break;
+
+			default:
+				PyErr_SetFromErrno(PyExc_OSError);
+				break;
 		}
 
 		return NULL;
-- 
2.43.0


From 71f130f6971b4426d87e10c0a96fc2de340c9e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:27 +0000
Subject: [PATCH 49/87] fix: python: raise ValueError for invalid networks and
 countries that are being added

---
 src/python/writer.c | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/python/writer.c b/src/python/writer.c
index a8d60a6..37fe34f 100644
--- a/src/python/writer.c
+++ b/src/python/writer.c
@@ -217,8 +217,8 @@ static PyObject* Writer_add_country(WriterObject* self, PyObject* args) {
 	// Create country object
 	int r = loc_writer_add_country(self->writer, &country, country_code);
 	if (r) {
-		switch (r) {
-			case -EINVAL:
+		switch (errno) {
+			case EINVAL:
 				PyErr_SetString(PyExc_ValueError, "Invalid country code");
 				break;
 
@@ -246,19 +246,12 @@ static PyObject* Writer_add_network(WriterObject* self, PyObject* args) {
 	// Create network object
 	int r = loc_writer_add_network(self->writer, &network, string);
 	if (r) {
-		switch (r) {
-			case -EINVAL:
-				PyErr_SetString(PyExc_ValueError, "Invalid network");
-				break;
-
-			case -EBUSY:
-				PyErr_SetString(PyExc_IndexError, "A network already exists here");
-				break;
-
-			default:
-				PyErr_SetFromErrno(PyExc_OSError);
-				break;
-		}
+		if (r == -EBUSY)
+			PyErr_SetString(PyExc_IndexError, "A network already exists here");
+		else if (errno == EINVAL)
+			PyErr_SetString(PyExc_ValueError, "Invalid network");
+		else
+			PyErr_SetFromErrno(PyExc_OSError);
 
 		return NULL;
 	}
-- 
2.43.0


From 18c99a034fc15e75941112eb7d73c4345bacd477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:27 +0000
Subject: [PATCH 50/87] fix: python: release everything when searching for
 networks fails

---
 src/python/database.c | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/python/database.c b/src/python/database.c
index 9237ebe..fba1f1d 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -332,7 +332,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 		r = loc_country_list_new(loc_ctx, &countries);
 		if (r) {
 			PyErr_SetString(PyExc_SystemError, "Could not create country list");
-			return NULL;
+			goto ERROR;
 		}
 
 		for (int i = 0; i < PyList_Size(country_codes); i++) {
@@ -341,22 +341,26 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 			if (!PyUnicode_Check(item)) {
 				PyErr_SetString(PyExc_TypeError, "Country codes must be strings");
 				loc_country_list_unref(countries);
-				return NULL;
+				goto ERROR;
 			}
 
 			const char* country_code = PyUnicode_AsUTF8(item);
+			if (!country_code) {
+				loc_country_list_unref(countries);
+				goto ERROR;
+			}
 
 			struct loc_country* country;
 			r = loc_country_new(loc_ctx, &country, country_code);
 			if (r) {
-				if (r == -EINVAL) {
+				if (errno == EINVAL) {
 					PyErr_Format(PyExc_ValueError, "Invalid country code: %s", country_code);
 				} else {
 					PyErr_SetString(PyExc_SystemError, "Could not create country");
 				}
 
 				loc_country_list_unref(countries);
-				return NULL;
+				goto ERROR;
 			}
 
 			// Append it to the list
@@ -366,7 +370,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 
 				loc_country_list_unref(countries);
 				loc_country_unref(country);
-				return NULL;
+				goto ERROR;
 			}
 
 			loc_country_unref(country);
@@ -377,7 +381,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 			PyErr_SetFromErrno(PyExc_SystemError);
 
 			loc_country_list_unref(countries);
-			return NULL;
+			goto ERROR;
 		}
 
 		loc_country_list_unref(countries);
@@ -389,7 +393,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 		r = loc_as_list_new(loc_ctx, &asns);
 		if (r) {
 			PyErr_SetFromErrno(PyExc_OSError);
-			return NULL;
+			goto ERROR;
 		}
 
 		for (int i = 0; i < PyList_Size(asn_list); i++) {
@@ -399,7 +403,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 				PyErr_SetString(PyExc_TypeError, "ASNs must be numbers");
 
 				loc_as_list_unref(asns);
-				return NULL;
+				goto ERROR;
 			}
 
 			long long int number = PyLong_AsLongLong(item);
@@ -410,7 +414,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 					PyErr_Format(PyExc_OverflowError, "Invalid ASN %lld", number);
 
 				loc_as_list_unref(asns);
-				return NULL;
+				goto ERROR;
 			}
 
 			struct loc_as* as;
@@ -419,8 +423,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 				PyErr_SetFromErrno(PyExc_OSError);
 
 				loc_as_list_unref(asns);
-				loc_as_unref(as);
-				return NULL;
+				goto ERROR;
 			}
 
 			r = loc_as_list_append(asns, as);
@@ -429,7 +432,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 
 				loc_as_list_unref(asns);
 				loc_as_unref(as);
-				return NULL;
+				goto ERROR;
 			}
 
 			loc_as_unref(as);
@@ -440,7 +443,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 			PyErr_SetFromErrno(PyExc_OSError);
 
 			loc_as_list_unref(asns);
-			return NULL;
+			goto ERROR;
 		}
 
 		loc_as_list_unref(asns);
@@ -452,7 +455,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 
 		if (r) {
 			PyErr_SetFromErrno(PyExc_OSError);
-			return NULL;
+			goto ERROR;
 		}
 	}
 
@@ -462,7 +465,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 
 		if (r) {
 			PyErr_SetFromErrno(PyExc_OSError);
-			return NULL;
+			goto ERROR;
 		}
 	}
 
@@ -470,6 +473,11 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 	loc_database_enumerator_unref(enumerator);
 
 	return obj;
+
+ERROR:
+	loc_database_enumerator_unref(enumerator);
+
+	return NULL;
 }
 
 static PyObject* Database_countries(DatabaseObject* self) {
-- 
2.43.0


From 19409c75f35bee2c7e571fe2d25f788e1eab7998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:27 +0000
Subject: [PATCH 51/87] fix: python: raise an exception when the search string
 could not be set

---
 src/python/database.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/python/database.c b/src/python/database.c
index fba1f1d..88f5078 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -289,7 +289,13 @@ static PyObject* Database_search_as(DatabaseObject* self, PyObject* args) {
 	}
 
 	// Search string we are searching for
-	loc_database_enumerator_set_string(enumerator, string);
+	r = loc_database_enumerator_set_string(enumerator, string);
+	if (r) {
+		PyErr_SetFromErrno(PyExc_OSError);
+		loc_database_enumerator_unref(enumerator);
+
+		return NULL;
+	}
 
 	PyObject* obj = new_database_enumerator(&DatabaseEnumeratorType, enumerator);
 	loc_database_enumerator_unref(enumerator);
-- 
2.43.0


From e9203e99b1b150b4af3fe978f8c90586235cd4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:27 +0000
Subject: [PATCH 52/87] fix: python: raise an exception when the family could
 not be set

---
 src/python/database.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/python/database.c b/src/python/database.c
index 88f5078..ffcd8c3 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -261,8 +261,15 @@ static PyObject* Database_iterate_all(DatabaseObject* self,
 	}
 
 	// Set family
-	if (family)
-		loc_database_enumerator_set_family(enumerator, family);
+	if (family) {
+		r = loc_database_enumerator_set_family(enumerator, family);
+		if (r) {
+			PyErr_SetFromErrno(PyExc_OSError);
+			loc_database_enumerator_unref(enumerator);
+
+			return NULL;
+		}
+	}
 
 	PyObject* obj = new_database_enumerator(&DatabaseEnumeratorType, enumerator);
 	loc_database_enumerator_unref(enumerator);
-- 
2.43.0


From 60792b4a50c6dfd68a0a50d48ab577755c80c99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:27 +0000
Subject: [PATCH 53/87] fix: python: close the public key after verifying a
 database

---
 src/python/database.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/python/database.c b/src/python/database.c
index ffcd8c3..3c6eccf 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -16,6 +16,8 @@
 
 #include <Python.h>
 
+#include <unistd.h>
+
 #include <libloc/libloc.h>
 #include <libloc/as.h>
 #include <libloc/as-list.h>
@@ -94,14 +96,23 @@ static PyObject* Database_verify(DatabaseObject* self, PyObject* args) {
 	if (fd < 0)
 		return NULL;
 
+	// The file descriptor belongs to the object that was passed
+	fd = dup(fd);
+	if (fd < 0) {
+		PyErr_SetFromErrno(PyExc_IOError);
+		return NULL;
+	}
+
 	// Re-open file descriptor
 	f = fdopen(fd, "r");
 	if (!f) {
 		PyErr_SetFromErrno(PyExc_IOError);
+		close(fd);
 		return NULL;
 	}
 
 	int r = loc_database_verify(self->db, f);
+	fclose(f);
 
 	if (r == 0)
 		Py_RETURN_TRUE;
-- 
2.43.0


From 067c585a326c8f9a10b931ab06f0dab08ff67407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:27 +0000
Subject: [PATCH 54/87] fix: python: close the private keys, keep None alive
 and raise an exception when a writer cannot be created

---
 src/python/writer.c | 81 ++++++++++++++++++++++++++-------------------
 1 file changed, 47 insertions(+), 34 deletions(-)

diff --git a/src/python/writer.c b/src/python/writer.c
index 37fe34f..7431e41 100644
--- a/src/python/writer.c
+++ b/src/python/writer.c
@@ -16,6 +16,8 @@
 
 #include <Python.h>
 
+#include <unistd.h>
+
 #include <libloc/libloc.h>
 #include <libloc/writer.h>
 
@@ -38,57 +40,68 @@ static void Writer_dealloc(WriterObject* self) {
 	Py_TYPE(self)->tp_free((PyObject* )self);
 }
 
+static FILE* open_private_key(PyObject* private_key) {
+	FILE* f = NULL;
+
+	int fd = PyObject_AsFileDescriptor(private_key);
+	if (fd < 0)
+		return NULL;
+
+	// The file descriptor belongs to the object that was passed
+	fd = dup(fd);
+	if (fd < 0) {
+		PyErr_SetFromErrno(PyExc_IOError);
+		return NULL;
+	}
+
+	// Re-open file descriptor
+	f = fdopen(fd, "r");
+	if (!f) {
+		PyErr_SetFromErrno(PyExc_IOError);
+		close(fd);
+	}
+
+	return f;
+}
+
 static int Writer_init(WriterObject* self, PyObject* args, PyObject* kwargs) {
 	PyObject* private_key1 = NULL;
 	PyObject* private_key2 = NULL;
 	FILE* f1 = NULL;
 	FILE* f2 = NULL;
-	int fd;
+	int r = -1;
 
 	// Parse arguments
 	if (!PyArg_ParseTuple(args, "|OO", &private_key1, &private_key2))
 		return -1;
 
-	// Ignore None
-	if (private_key1 == Py_None) {
-		Py_DECREF(private_key1);
-		private_key1 = NULL;
+	// Convert into FILE*, ignoring None
+	if (private_key1 && private_key1 != Py_None) {
+		f1 = open_private_key(private_key1);
+		if (!f1)
+			goto ERROR;
 	}
 
-	if (private_key2 == Py_None) {
-		Py_DECREF(private_key2);
-		private_key2 = NULL;
+	if (private_key2 && private_key2 != Py_None) {
+		f2 = open_private_key(private_key2);
+		if (!f2)
+			goto ERROR;
 	}
 
-	// Convert into FILE*
-	if (private_key1) {
-		fd = PyObject_AsFileDescriptor(private_key1);
-		if (fd < 0)
-			return -1;
-
-		// Re-open file descriptor
-		f1 = fdopen(fd, "r");
-		if (!f1) {
-			PyErr_SetFromErrno(PyExc_IOError);
-			return -1;
-		}
+	// Create the writer object
+	r = loc_writer_new(loc_ctx, &self->writer, f1, f2);
+	if (r) {
+		PyErr_SetString(PyExc_OSError, "Could not create the writer");
+		r = -1;
 	}
 
-	if (private_key2) {
-		fd = PyObject_AsFileDescriptor(private_key2);
-		if (fd < 0)
-			return -1;
+ERROR:
+	if (f1)
+		fclose(f1);
+	if (f2)
+		fclose(f2);
 
-		// Re-open file descriptor
-		f2 = fdopen(fd, "r");
-		if (!f2) {
-			PyErr_SetFromErrno(PyExc_IOError);
-			return -1;
-		}
-	}
-
-	// Create the writer object
-	return loc_writer_new(loc_ctx, &self->writer, f1, f2);
+	return r;
 }
 
 static PyObject* Writer_get_vendor(WriterObject* self) {
-- 
2.43.0


From d31818dc6e507dc71ce34ffc72ca5be41b2cd8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:27 +0000
Subject: [PATCH 55/87] fix: python: report when the database could not be
 written entirely

---
 src/python/writer.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/writer.c b/src/python/writer.c
index 7431e41..1735821 100644
--- a/src/python/writer.c
+++ b/src/python/writer.c
@@ -289,7 +289,10 @@ static PyObject* Writer_write(WriterObject* self, PyObject* args) {
 	}
 
 	int r = loc_writer_write(self->writer, f, (enum loc_database_version)version);
-	fclose(f);
+
+	// The database has not been written if the file could not be closed
+	if (fclose(f) && !r)
+		r = -1;
 
 	// Raise any errors
 	if (r) {
-- 
2.43.0


From 4bca39b309c1ddcfdd1190eb928a467146c31709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:27 +0000
Subject: [PATCH 56/87] fix: python: raise an exception when a network could
 not be excluded

---
 src/python/network.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/python/network.c b/src/python/network.c
index 24caae1..3f057fc 100644
--- a/src/python/network.c
+++ b/src/python/network.c
@@ -29,17 +29,27 @@
 
 static PyObject* PyList_FromNetworkList(struct loc_network_list* networks) {
 	PyObject* list = PyList_New(0);
-	if (!networks)
+	if (!list || !networks)
 		return list;
 
 	while (!loc_network_list_empty(networks)) {
 		struct loc_network* network = loc_network_list_pop(networks);
 
 		PyObject* n = new_network(&NetworkType, network);
-		PyList_Append(list, n);
-
 		loc_network_unref(network);
+
+		if (!n) {
+			Py_DECREF(list);
+			return NULL;
+		}
+
+		int r = PyList_Append(list, n);
 		Py_DECREF(n);
+
+		if (r) {
+			Py_DECREF(list);
+			return NULL;
+		}
 	}
 
 	return list;
@@ -214,6 +224,10 @@ static PyObject* Network_exclude(NetworkObject* self, PyObject* args) {
 		return NULL;
 
 	struct loc_network_list* list = loc_network_exclude(self->network, other->network);
+	if (!list) {
+		PyErr_SetFromErrno(PyExc_OSError);
+		return NULL;
+	}
 
 	// Convert to Python objects
 	PyObject* obj = PyList_FromNetworkList(list);
-- 
2.43.0


From 6a6016fc5a61d48e075bae2b99fb5f2522574de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:27 +0000
Subject: [PATCH 57/87] fix: python: do not allow to create enumerators that do
 not enumerate anything

---
 src/python/database.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/python/database.c b/src/python/database.c
index 3c6eccf..243345d 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -639,14 +639,9 @@ PyTypeObject DatabaseType = {
 	.tp_repr =               (reprfunc)Database_repr,
 };
 
-static PyObject* DatabaseEnumerator_new(PyTypeObject* type, PyObject* args, PyObject* kwds) {
-	DatabaseEnumeratorObject* self = (DatabaseEnumeratorObject*)type->tp_alloc(type, 0);
-
-	return (PyObject*)self;
-}
-
 static void DatabaseEnumerator_dealloc(DatabaseEnumeratorObject* self) {
-	loc_database_enumerator_unref(self->enumerator);
+	if (self->enumerator)
+		loc_database_enumerator_unref(self->enumerator);
 
 	Py_TYPE(self)->tp_free((PyObject* )self);
 }
@@ -712,7 +707,6 @@ PyTypeObject DatabaseEnumeratorType = {
 	.tp_basicsize =          sizeof(DatabaseEnumeratorObject),
 	.tp_flags =              Py_TPFLAGS_DEFAULT,
 	.tp_alloc =              PyType_GenericAlloc,
-	.tp_new =                DatabaseEnumerator_new,
 	.tp_dealloc =            (destructor)DatabaseEnumerator_dealloc,
 	.tp_iter =               PyObject_SelfIter,
 	.tp_iternext =           (iternextfunc)DatabaseEnumerator_next,
-- 
2.43.0


From e18961377e6afae0613c17f049ef9c6d7eb19c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:27 +0000
Subject: [PATCH 58/87] fix: python: release the module when it could not be
 initialised

---
 src/python/locationmodule.c | 79 +++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 38 deletions(-)

diff --git a/src/python/locationmodule.c b/src/python/locationmodule.c
index 45c7bd8..1961743 100644
--- a/src/python/locationmodule.c
+++ b/src/python/locationmodule.c
@@ -107,11 +107,28 @@ static struct PyModuleDef location_module = {
 	.m_free = (freefunc)location_free,
 };
 
+static int add_type(PyObject* m, const char* name, PyTypeObject* type) {
+	if (PyType_Ready(type) < 0)
+		return -1;
+
+	Py_INCREF(type);
+
+	// This only takes over the reference on success
+	if (PyModule_AddObject(m, name, (PyObject*)type) < 0) {
+		Py_DECREF(type);
+		return -1;
+	}
+
+	return 0;
+}
+
 PyMODINIT_FUNC PyInit__location(void) {
 	// Initialise loc context
 	int r = loc_new(&loc_ctx);
-	if (r)
+	if (r) {
+		PyErr_SetFromErrno(PyExc_OSError);
 		return NULL;
+	}
 
 	PyObject* m = PyModule_Create(&location_module);
 	if (!m)
@@ -119,70 +136,56 @@ PyMODINIT_FUNC PyInit__location(void) {
 
 	// Version
 	if (PyModule_AddStringConstant(m, "__version__", PACKAGE_VERSION))
-		return NULL;
+		goto ERROR;
 
 	// Default Database Path
 	if (PyModule_AddStringConstant(m, "DATABASE_PATH", LIBLOC_DEFAULT_DATABASE_PATH))
-		return NULL;
+		goto ERROR;
 
 	// AS
-	if (PyType_Ready(&ASType) < 0)
-		return NULL;
-
-	Py_INCREF(&ASType);
-	PyModule_AddObject(m, "AS", (PyObject *)&ASType);
+	if (add_type(m, "AS", &ASType))
+		goto ERROR;
 
 	// Country
-	if (PyType_Ready(&CountryType) < 0)
-		return NULL;
-
-	Py_INCREF(&CountryType);
-	PyModule_AddObject(m, "Country", (PyObject *)&CountryType);
+	if (add_type(m, "Country", &CountryType))
+		goto ERROR;
 
 	// Database
-	if (PyType_Ready(&DatabaseType) < 0)
-		return NULL;
-
-	Py_INCREF(&DatabaseType);
-	PyModule_AddObject(m, "Database", (PyObject *)&DatabaseType);
+	if (add_type(m, "Database", &DatabaseType))
+		goto ERROR;
 
 	// Database Enumerator
-	if (PyType_Ready(&DatabaseEnumeratorType) < 0)
-		return NULL;
-
-	Py_INCREF(&DatabaseEnumeratorType);
-	PyModule_AddObject(m, "DatabaseEnumerator", (PyObject *)&DatabaseEnumeratorType);
+	if (add_type(m, "DatabaseEnumerator", &DatabaseEnumeratorType))
+		goto ERROR;
 
 	// Network
-	if (PyType_Ready(&NetworkType) < 0)
-		return NULL;
-
-	Py_INCREF(&NetworkType);
-	PyModule_AddObject(m, "Network", (PyObject *)&NetworkType);
+	if (add_type(m, "Network", &NetworkType))
+		goto ERROR;
 
 	// Writer
-	if (PyType_Ready(&WriterType) < 0)
-		return NULL;
-
-	Py_INCREF(&WriterType);
-	PyModule_AddObject(m, "Writer", (PyObject *)&WriterType);
+	if (add_type(m, "Writer", &WriterType))
+		goto ERROR;
 
 	// Add flags
 	if (PyModule_AddIntConstant(m, "NETWORK_FLAG_ANONYMOUS_PROXY", LOC_NETWORK_FLAG_ANONYMOUS_PROXY))
-		return NULL;
+		goto ERROR;
 
 	if (PyModule_AddIntConstant(m, "NETWORK_FLAG_SATELLITE_PROVIDER", LOC_NETWORK_FLAG_SATELLITE_PROVIDER))
-		return NULL;
+		goto ERROR;
 
 	if (PyModule_AddIntConstant(m, "NETWORK_FLAG_ANYCAST", LOC_NETWORK_FLAG_ANYCAST))
-		return NULL;
+		goto ERROR;
 
 	if (PyModule_AddIntConstant(m, "NETWORK_FLAG_DROP", LOC_NETWORK_FLAG_DROP))
-		return NULL;
+		goto ERROR;
 
 	// Add latest database version
 	if (PyModule_AddIntConstant(m, "DATABASE_VERSION_LATEST", LOC_DATABASE_VERSION_LATEST))
-		return NULL;
+		goto ERROR;
 
 	return m;
+
+ERROR:
+	Py_DECREF(m);
+	return NULL;
 }
-- 
2.43.0


From 0111d529117588e31c2eca0eed4bd2b876d130dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:06 +0000
Subject: [PATCH 59/87] fix: lua: show AS numbers of 2^31 and above unsigned

---
 src/lua/as.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lua/as.c b/src/lua/as.c
index 558fcbf..17f4c05 100644
--- a/src/lua/as.c
+++ b/src/lua/as.c
@@ -15,6 +15,8 @@
 */
 
 #include <errno.h>
+#include <inttypes.h>
+#include <stdio.h>
 #include <string.h>
 #include <stdlib.h>
 
@@ -88,14 +90,18 @@ static int AS_gc(lua_State* L) {
 static int AS_tostring(lua_State* L) {
 	AS* self = luaL_checkas(L, 1);
 
-	uint32_t number = loc_as_get_number(self->as);
+	char number[16];
+
+	// Lua's %d is signed and cannot show all AS numbers
+	snprintf(number, sizeof(number), "AS%" PRIu32, loc_as_get_number(self->as));
+
 	const char* name = loc_as_get_name(self->as);
 
 	// Return string
 	if (name)
-		lua_pushfstring(L, "AS%d - %s", number, name);
+		lua_pushfstring(L, "%s - %s", number, name);
 	else
-		lua_pushfstring(L, "AS%d", number);
+		lua_pushstring(L, number);
 
 	return 1;
 }
-- 
2.43.0


From e8e2cd7b28147d5db36cdc075efc3be4bceae13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:06 +0000
Subject: [PATCH 60/87] fix: lua: Database.get_country() crashed when there was
 no such country

---
 src/lua/database.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lua/database.c b/src/lua/database.c
index dfdb705..4fe7861 100644
--- a/src/lua/database.c
+++ b/src/lua/database.c
@@ -166,7 +166,7 @@ static int Database_get_country(lua_State* L) {
 
 	// Fetch the country
 	r = loc_database_get_country(self->db, &country, code);
-	if (r) {
+	if (r || !country) {
 		lua_pushnil(L);
 		return 1;
 	}
-- 
2.43.0


From 73d1c3bf22586f034039f8ffafe3fa8bdca33207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:06 +0000
Subject: [PATCH 61/87] fix: lua: the enumerator was collected uninitialised if
 it could not be created

---
 src/lua/database.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lua/database.c b/src/lua/database.c
index 4fe7861..57460de 100644
--- a/src/lua/database.c
+++ b/src/lua/database.c
@@ -285,6 +285,8 @@ static int Database_list_networks(lua_State* L) {
 
 	// Allocate a new enumerator
 	e = lua_newuserdata(L, sizeof(*e));
+	e->e = NULL;
+
 	luaL_setmetatable(L, "location.DatabaseEnumerator");
 
 	// Create a new enumerator
-- 
2.43.0


From 8822589b88ad6d03454af4309f1614e2d45276c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:06 +0000
Subject: [PATCH 62/87] fix: lua: the log message leaked if the callback raised
 an error

---
 src/lua/location.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lua/location.c b/src/lua/location.c
index 1c94889..d5f1acc 100644
--- a/src/lua/location.c
+++ b/src/lua/location.c
@@ -57,10 +57,11 @@ static void log_callback(struct loc_ctx* _ctx, void* data, int priority, const c
 	// Pass the message as second argument
 	lua_pushstring(L, message);
 
-	// Call the function
-	lua_call(L, 2, 0);
-
+	// Lua has made a copy of the message
 	free(message);
+
+	// Call the function (which does not return if it raises an error)
+	lua_call(L, 2, 0);
 }
 
 static int set_log_callback(lua_State* L) {
-- 
2.43.0


From bc46f8771a1b62b273f36c02dd5297bf90804a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:06 +0000
Subject: [PATCH 63/87] fix: perl: failing to create the context was not
 noticed

---
 src/perl/Location.xs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/perl/Location.xs b/src/perl/Location.xs
index be6df14..18021c0 100644
--- a/src/perl/Location.xs
+++ b/src/perl/Location.xs
@@ -22,7 +22,7 @@ init(file)
 
 		// Initialise location context
 		int err = loc_new(&ctx);
-		if (err < 0)
+		if (err)
 			croak("Could not initialize libloc context: %d\n", err);
 
 		// Open the database file for reading
-- 
2.43.0


From 4397bc9137cfa467b912c51f911158e2c869fb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:06 +0000
Subject: [PATCH 64/87] fix: perl: database_countries() leaked the enumerator
 when it failed

---
 src/perl/Location.xs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/perl/Location.xs b/src/perl/Location.xs
index 18021c0..7adc6a0 100644
--- a/src/perl/Location.xs
+++ b/src/perl/Location.xs
@@ -135,6 +135,8 @@ database_countries(db)
 		struct loc_country* country;
 		err = loc_database_enumerator_next_country(enumerator, &country);
 		if (err) {
+			loc_database_enumerator_unref(enumerator);
+
 			croak("Could not enumerate next country\n");
 		}
 
@@ -151,6 +153,8 @@ database_countries(db)
 			// Enumerate next item.
 			err = loc_database_enumerator_next_country(enumerator, &country);
 			if (err) {
+				loc_database_enumerator_unref(enumerator);
+
 				croak("Could not enumerate next country\n");
 			}
 		}
-- 
2.43.0


From c696a48617ab4c89bd72d54c710a05dee6f86c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:06 +0000
Subject: [PATCH 65/87] fix: perl: get_country_name() and get_continent_code()
 crashed when there was no such country

---
 src/perl/Location.xs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/perl/Location.xs b/src/perl/Location.xs
index 7adc6a0..2c57107 100644
--- a/src/perl/Location.xs
+++ b/src/perl/Location.xs
@@ -271,12 +271,13 @@ get_country_name(db, ccode)
 		RETVAL = &PL_sv_undef;
 
 		// Lookup country code
-		struct loc_country *country;
+		struct loc_country *country = NULL;
 		int err = loc_database_get_country(db, &country, ccode);
-		if(!err) {
+		if(!err && country) {
 			// Extract the name for the given country code.
 			const char* country_name = loc_country_get_name(country);
-			RETVAL = newSVpv(country_name, strlen(country_name));
+			if (country_name)
+				RETVAL = newSVpv(country_name, strlen(country_name));
 
 			loc_country_unref(country);
 		}
@@ -293,12 +294,13 @@ get_continent_code(db, ccode)
 		RETVAL = &PL_sv_undef;
 
 		// Lookup country code
-		struct loc_country *country;
+		struct loc_country *country = NULL;
 		int err = loc_database_get_country(db, &country, ccode);
-		if(!err) {
+		if(!err && country) {
 			//Extract the continent code for the given country code.
 			const char* continent_code =  loc_country_get_continent_code(country);
-			RETVAL = newSVpv(continent_code, strlen(continent_code));
+			if (continent_code)
+				RETVAL = newSVpv(continent_code, strlen(continent_code));
 
 			loc_country_unref(country);
 		}
-- 
2.43.0


From 94df10e1e139fc117f2755d8a969bf3182d6e8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:06 +0000
Subject: [PATCH 66/87] fix: perl: get_as_name() crashed when the AS had no
 name

---
 src/perl/Location.xs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/perl/Location.xs b/src/perl/Location.xs
index 2c57107..7f9f0f7 100644
--- a/src/perl/Location.xs
+++ b/src/perl/Location.xs
@@ -323,7 +323,8 @@ get_as_name(db, as_number)
 			// Get the name of the given AS number.
 			const char* as_name = loc_as_get_name(as);
 
-			RETVAL = newSVpv(as_name, strlen(as_name));
+			if (as_name)
+				RETVAL = newSVpv(as_name, strlen(as_name));
 
 			loc_as_unref(as);
 		}
-- 
2.43.0


From f69784b051b3889bcd81f2c1a1d6d6a428fb59af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:35 +0000
Subject: [PATCH 67/87] fix: importer: Catch the right exception when an AWS
 prefix cannot be parsed

---
 src/scripts/location-importer.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 3e651b4..dd145c6 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -2281,7 +2281,7 @@ class CLI(object):
 			# Parse the network
 			try:
 				network = ipaddress.ip_network(network)
-			except ValuleError as e:
+			except ValueError as e:
 				log.warning("%s: Unable to parse prefix %s" % (name, network))
 				continue
 
-- 
2.43.0


From 9908ed218a091a98c272ae132085df6c0063adf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:35 +0000
Subject: [PATCH 68/87] fix: export: Do not replace the tag by a read-only
 property for xt_geoip

---
 src/python/location/export.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/python/location/export.py b/src/python/location/export.py
index 1d147b1..930923f 100644
--- a/src/python/location/export.py
+++ b/src/python/location/export.py
@@ -218,8 +218,7 @@ class XTGeoIPOutputWriter(OutputWriter):
 	"""
 	mode = "wb"
 
-	@property
-	def tag(self):
+	def _make_tag(self):
 		return self.name
 
 	@property
-- 
2.43.0


From 698679175dc77cbfd52ad0be435249e86bcab30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:35 +0000
Subject: [PATCH 69/87] fix: location: Fall back to the output writer that
 exists

---
 src/scripts/location.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scripts/location.in b/src/scripts/location.in
index b34cc91..9d42fbb 100644
--- a/src/scripts/location.in
+++ b/src/scripts/location.in
@@ -488,7 +488,7 @@ class CLI(object):
 		try:
 			cls = location.export.formats[ns.format]
 		except KeyError:
-			cls = location.export.OutputFormatter
+			cls = location.export.OutputWriter
 
 		return cls
 
-- 
2.43.0


From f1409940ca8adf751e61cf70b1a7cd8e7138ebbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:31 +0000
Subject: [PATCH 70/87] fix: importer: Write the database in the requested
 format version

---
 src/scripts/location-importer.in | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index dd145c6..9f6a5c4 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -101,7 +101,8 @@ class CLI(object):
 		write.add_argument("--vendor", nargs="?", help=_("Sets the vendor"))
 		write.add_argument("--description", nargs="?", help=_("Sets a description"))
 		write.add_argument("--license", nargs="?", help=_("Sets the license"))
-		write.add_argument("--version", type=int, help=_("Database Format Version"))
+		write.add_argument("--version", type=int,
+			default=location.DATABASE_VERSION_LATEST, help=_("Database Format Version"))
 
 		# Update WHOIS
 		update_whois = subparsers.add_parser("update-whois", help=_("Update WHOIS Information"))
@@ -830,7 +831,7 @@ class CLI(object):
 		# Write everything to file
 		log.info("Writing database to file...")
 		for file in ns.file:
-			writer.write(file)
+			writer.write(file, ns.version)
 
 	async def handle_update_whois(self, ns):
 		# Did we run successfully?
-- 
2.43.0


From bf918bae0f7a8337f1684cbc87cc5e92262ad024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:54 +0000
Subject: [PATCH 71/87] fix: downloader: Throw away everything a mirror has
 sent before trying the next one

---
 src/python/location/downloader.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/python/location/downloader.py b/src/python/location/downloader.py
index 3dffbc7..6c5fdb0 100644
--- a/src/python/location/downloader.py
+++ b/src/python/location/downloader.py
@@ -129,6 +129,10 @@ class Downloader(object):
 				# Prepare HTTP request
 				req = self._make_request(url, baseurl=mirror, headers=headers)
 
+				# Throw away anything another mirror has sent
+				t.seek(0)
+				t.truncate()
+
 				try:
 					with self._send_request(req) as res:
 						decompressor = lzma.LZMADecompressor()
@@ -161,16 +165,10 @@ class Downloader(object):
 					else:
 						log.warning("%s reported: %s" % (mirror, e))
 
-					# Throw away any downloaded content and try again
-					t.truncate()
-
 				else:
 					# Check if the downloaded database is recent
 					if not self._check_database(t, public_key, timestamp):
 						log.warning("Downloaded database is outdated. Trying next mirror...")
-
-						# Throw away the data and try again
-						t.truncate()
 						continue
 
 					# Make the file readable for everyone
-- 
2.43.0


From c63e026f1f85c118a0c7e6dabc32850b0b5ffd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:54 +0000
Subject: [PATCH 72/87] fix: downloader: Try the next mirror if a database
 cannot be opened

---
 src/python/location/downloader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/python/location/downloader.py b/src/python/location/downloader.py
index 6c5fdb0..a26b555 100644
--- a/src/python/location/downloader.py
+++ b/src/python/location/downloader.py
@@ -189,7 +189,13 @@ class Downloader(object):
 		"""
 		log.debug("Opening downloaded database at %s" % f.name)
 
-		db = Database(f.name)
+		try:
+			db = Database(f.name)
+
+		# The file is damaged
+		except OSError as e:
+			log.error("Could not open the downloaded database: %s" % e)
+			return False
 
 		# Database is not recent
 		if timestamp and db.created_at < timestamp:
-- 
2.43.0


From fc066855d5e91de2dba82f206a85347e42c643de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:54 +0000
Subject: [PATCH 73/87] fix: downloader: Try the next mirror if a connection
 fails or breaks

---
 src/python/location/downloader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/python/location/downloader.py b/src/python/location/downloader.py
index a26b555..bc21084 100644
--- a/src/python/location/downloader.py
+++ b/src/python/location/downloader.py
@@ -17,6 +17,7 @@
 ###############################################################################
 
 import gzip
+import http.client
 import logging
 import lzma
 import os
@@ -152,7 +153,7 @@ class Downloader(object):
 					t.flush()
 
 				# Catch decompression errors
-				except lzma.LZMAError as e:
+				except (lzma.LZMAError, EOFError) as e:
 					log.warning("Could not decompress downloaded file: %s" % e)
 					continue
 
@@ -165,6 +166,10 @@ class Downloader(object):
 					else:
 						log.warning("%s reported: %s" % (mirror, e))
 
+				# Catch connections that failed or broke
+				except (OSError, http.client.HTTPException) as e:
+					log.warning("Could not download from %s: %s" % (mirror, e))
+
 				else:
 					# Check if the downloaded database is recent
 					if not self._check_database(t, public_key, timestamp):
-- 
2.43.0


From 7cef0f8b291610c22a392ce2ca18e8a41dbbaee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:20 +0000
Subject: [PATCH 74/87] fix: downloader: Do not leave the temporary file behind
 when a download fails

---
 src/python/location/downloader.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/python/location/downloader.py b/src/python/location/downloader.py
index bc21084..3fa4704 100644
--- a/src/python/location/downloader.py
+++ b/src/python/location/downloader.py
@@ -124,6 +124,18 @@ class Downloader(object):
 			)
 
 		t = tempfile.NamedTemporaryFile(dir=tmpdir, delete=False)
+		try:
+			self._download(t, url, headers, public_key, timestamp)
+
+		# Delete the temporary file after unsuccessful downloads
+		except BaseException:
+			os.unlink(t.name)
+			raise
+
+		# Return temporary file
+		return t
+
+	def _download(self, t, url, headers, public_key, timestamp=None):
 		with t:
 			# Try all mirrors
 			for mirror in self.mirrors:
@@ -179,11 +191,7 @@ class Downloader(object):
 					# Make the file readable for everyone
 					os.chmod(t.name, stat.S_IRUSR|stat.S_IRGRP|stat.S_IROTH)
 
-					# Return temporary file
-					return t
-
-		# Delete the temporary file after unsuccessful downloads
-		os.unlink(t.name)
+					return
 
 		raise FileNotFoundError(url)
 
-- 
2.43.0


From e6675151733a7524408144a8e2b5993afcd9ba3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:33 +0000
Subject: [PATCH 75/87] fix: importer: A broken geofeed no longer stops the
 update of all others

---
 src/scripts/location-importer.in | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 9f6a5c4..180bf0c 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1828,7 +1828,7 @@ class CLI(object):
 		async with asyncio.TaskGroup() as tasks:
 			for geofeed in geofeeds:
 				task = tasks.create_task(
-					self._fetch_geofeed(ratelimiter, geofeed),
+					self._update_geofeed(ratelimiter, geofeed),
 				)
 
 		# Delete data from any feeds that did not update in the last two weeks
@@ -1849,6 +1849,18 @@ class CLI(object):
 					)
 			""")
 
+	async def _update_geofeed(self, ratelimiter, geofeed):
+		try:
+			await self._fetch_geofeed(ratelimiter, geofeed)
+
+		# Log an error but continue with all other geofeeds
+		except Exception as e:
+			log.error("Error processing geofeed %s: %s" % (geofeed.url, e))
+
+			with self.db.transaction():
+				self.db.execute("UPDATE geofeeds SET status = %s, error = %s \
+					WHERE id = %s", 599, "%s" % e, geofeed.id)
+
 	async def _fetch_geofeed(self, ratelimiter, geofeed):
 		async with ratelimiter:
 			log.debug("Fetching Geofeed %s" % geofeed.url)
-- 
2.43.0


From 751b86799e07b9d0d4a0a1fc389384a1b1880994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:33 +0000
Subject: [PATCH 76/87] fix: importer: Temporary tables can hold all 32 bits of
 an AS number

---
 src/scripts/location-importer.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 180bf0c..d113ce2 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -380,7 +380,7 @@ class CLI(object):
 				n
 			(
 				network               inet NOT NULL,
-				autnum                integer,
+				autnum                bigint,
 				country               text,
 				is_anonymous_proxy    boolean,
 				is_satellite_provider boolean,
@@ -915,7 +915,7 @@ class CLI(object):
 
 			# Create some temporary tables to store parsed data
 			self.db.execute("""
-				CREATE TEMPORARY TABLE _autnums(number integer NOT NULL,
+				CREATE TEMPORARY TABLE _autnums(number bigint NOT NULL,
 					organization text NOT NULL, source text NOT NULL) ON COMMIT DROP;
 				CREATE UNIQUE INDEX _autnums_number ON _autnums(number);
 
-- 
2.43.0


From b8eb6d70ba423d9133df429028c3bd82bf9c9902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:34 +0000
Subject: [PATCH 77/87] fix: importer: Skip lines of ARIN's list of ASes that
 have something else than a number

---
 src/scripts/location-importer.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index d113ce2..95fe181 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1121,13 +1121,13 @@ class CLI(object):
 			# Cast to a number
 			try:
 				first_asn = int(first_asn)
-			except TypeError as e:
+			except (TypeError, ValueError) as e:
 				log.warning("Could not parse ASN '%s'" % first_asn)
 				continue
 
 			try:
 				last_asn = int(last_asn)
-			except TypeError as e:
+			except (TypeError, ValueError) as e:
 				log.warning("Could not parse ASN '%s'" % last_asn)
 				continue
 
-- 
2.43.0


From 56a8306a31b203e6213ef5a8034c8ed999ab62fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:34 +0000
Subject: [PATCH 78/87] fix: importer: Skip inetnum objects with invalid ranges
 and networks

---
 src/scripts/location-importer.in | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 95fe181..1a22cf3 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1335,15 +1335,15 @@ class CLI(object):
 					try:
 						start_address = ipaddress.ip_network(start_address, strict=False)
 					except ValueError:
-						start_address = start_address.split("/")
-						ldigits = start_address[0].count(".")
+						start_address, _, prefix = start_address.partition("/")
+						ldigits = start_address.count(".")
 
 						# How many octets do we need to add?
 						# (LACNIC does not seem to have a /8 or greater assigned, so the following should suffice.)
 						if ldigits == 1:
-							start_address = start_address[0] + ".0.0/" + start_address[1]
+							start_address = start_address + ".0.0/" + prefix
 						elif ldigits == 2:
-							start_address = start_address[0] + ".0/" + start_address[1]
+							start_address = start_address + ".0/" + prefix
 						else:
 							log.warning("Could not recover IPv4 address from line in LACNIC DB format: %s" % line)
 							return
@@ -1367,10 +1367,18 @@ class CLI(object):
 						log.warning("Could not parse line: %s" % line)
 						return
 
-				inetnum["inetnum"] = list(ipaddress.summarize_address_range(start_address, end_address))
+				try:
+					inetnum["inetnum"] = list(ipaddress.summarize_address_range(start_address, end_address))
+				except (TypeError, ValueError):
+					log.warning("Invalid address range: %s" % line)
+					return
 
 			elif key == "inet6num":
-				inetnum[key] = [ipaddress.ip_network(val, strict=False)]
+				try:
+					inetnum[key] = [ipaddress.ip_network(val, strict=False)]
+				except ValueError:
+					log.warning("Could not parse line: %s" % line)
+					return
 
 			elif key == "country":
 				cc = val.upper()
-- 
2.43.0


From 0229d77bde81928bc35ca5a9307caf9018e20ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:34 +0000
Subject: [PATCH 79/87] fix: importer: Skip networks without any addresses in
 the extended format

---
 src/scripts/location-importer.in | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 1a22cf3..f09add7 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1564,7 +1564,11 @@ class CLI(object):
 
 		# Fix prefix length for IPv4
 		if type == "ipv4":
-			prefix = 32 - int(math.log(prefix, 2))
+			try:
+				prefix = 32 - int(math.log(prefix, 2))
+			except ValueError:
+				log.warning("Invalid prefix: %s" % prefix)
+				return
 
 		# Try to parse the address
 		try:
-- 
2.43.0


From 1d29b580ef41304a89adfb65d543adc4b3b2d302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:34 +0000
Subject: [PATCH 80/87] fix: importer: Skip lines that cannot be decoded

---
 src/scripts/location-importer.in | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index f09add7..d0f6fd4 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -2373,7 +2373,11 @@ class CLI(object):
 		# Walk through all lines
 		for line in f:
 			# Decode line
-			line = line.decode("utf-8")
+			try:
+				line = line.decode("utf-8")
+			except UnicodeDecodeError as e:
+				log.warning("%s: Could not decode line: %s" % (name, e))
+				continue
 
 			# Strip off any comments
 			line, _, comment = line.partition(";")
@@ -2425,7 +2429,11 @@ class CLI(object):
 		"""
 		for line in f:
 			# Decode the line
-			line = line.decode("utf-8")
+			try:
+				line = line.decode("utf-8")
+			except UnicodeDecodeError as e:
+				log.warning("%s: Could not decode line: %s" % (name, e))
+				continue
 
 			# Parse JSON
 			try:
@@ -2596,7 +2604,11 @@ def iterate_over_blocks(f, charsets=("utf-8", "latin1")):
 def iterate_over_lines(f):
 	for line in f:
 		# Decode the line
-		line = line.decode()
+		try:
+			line = line.decode()
+		except UnicodeDecodeError as e:
+			log.warning("Could not decode line: %s" % e)
+			continue
 
 		# Strip the ending
 		yield line.rstrip()
-- 
2.43.0


From 7ec971788a70318401403c16e25fce68e80ba1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:34 +0000
Subject: [PATCH 81/87] fix: importer: Skip lines without a colon in override
 files

---
 src/scripts/location-importer.in | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index d0f6fd4..e9c132a 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -2536,7 +2536,11 @@ def read_blocks(f):
 		data = {}
 
 		for i, line in enumerate(block):
-			key, value = line.split(":", 1)
+			try:
+				key, value = line.split(":", 1)
+			except ValueError:
+				log.warning("Could not parse line: %s" % line)
+				continue
 
 			# The key of the first line defines the type
 			if i == 0:
-- 
2.43.0


From 410c7a803ecb4061826e134c146c0dc4b515e6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:51 +0000
Subject: [PATCH 82/87] fix: location-importer: Don't fail when Spamhaus lists
 something twice

---
 src/scripts/location-importer.in | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index e9c132a..f2a9968 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -2416,7 +2416,9 @@ class CLI(object):
 				VALUES
 				(
 					%s, %s, %s
-				)""", "%s" % network, name, True,
+				)
+				ON CONFLICT (network, source) DO NOTHING
+				""", "%s" % network, name, True,
 			)
 
 		# Raise an exception if we could not import anything
@@ -2473,7 +2475,9 @@ class CLI(object):
 				VALUES
 				(
 					%s, %s, %s
-				)""", "%s" % asn, name, True,
+				)
+				ON CONFLICT (number, source) DO NOTHING
+				""", "%s" % asn, name, True,
 			)
 
 	@staticmethod
-- 
2.43.0


From 140fc5f51b74a43e1c63c4dc67f2cf49918927ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:25 +0000
Subject: [PATCH 83/87] fix: network: Mask the address before checking its
 family

When a network is read from the database, the address may have bits set
behind the prefix. Looking up an IPv4 address that only an IPv6 network
with a prefix of less than 96 covers (e.g. ::/0) failed, because that
network was taken for an IPv4 one.
---
 src/network.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/network.c b/src/network.c
index fc6dfa8..1d523f2 100644
--- a/src/network.c
+++ b/src/network.c
@@ -685,11 +685,15 @@ int loc_network_new_from_database_v1(struct loc_ctx* ctx, struct loc_network** n
 		struct in6_addr* address, unsigned int prefix, const struct loc_database_network_v1* dbobj) {
 	char country_code[3] = "\0\0";
 
+	// Drop any bits that are not part of the network
+	const struct in6_addr bitmask = loc_prefix_to_bitmask(prefix);
+	struct in6_addr first_address = loc_address_and(address, &bitmask);
+
 	// Adjust prefix for IPv4
-	if (IN6_IS_ADDR_V4MAPPED(address))
+	if (IN6_IS_ADDR_V4MAPPED(&first_address))
 		prefix -= 96;
 
-	int r = loc_network_new(ctx, network, address, prefix);
+	int r = loc_network_new(ctx, network, &first_address, prefix);
 	if (r) {
 		ERROR(ctx, "Could not allocate a new network: %m\n");
 		return r;
-- 
2.43.0


From 28cb7de1106f22da4137f46cc3312efc3e7437e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:48 +0000
Subject: [PATCH 84/87] fix: network: Check the prefix before a bitmask is made
 of it

---
 src/network.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/network.c b/src/network.c
index 1d523f2..6cf6f79 100644
--- a/src/network.c
+++ b/src/network.c
@@ -685,6 +685,13 @@ int loc_network_new_from_database_v1(struct loc_ctx* ctx, struct loc_network** n
 		struct in6_addr* address, unsigned int prefix, const struct loc_database_network_v1* dbobj) {
 	char country_code[3] = "\0\0";
 
+	// Check if the prefix is valid
+	if (prefix > 128) {
+		ERROR(ctx, "Invalid prefix: %u\n", prefix);
+		errno = EINVAL;
+		return 1;
+	}
+
 	// Drop any bits that are not part of the network
 	const struct in6_addr bitmask = loc_prefix_to_bitmask(prefix);
 	struct in6_addr first_address = loc_address_and(address, &bitmask);
-- 
2.43.0


From 152db9c51e22ee42fb6c855cf13ac2c4afc7d134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:07 +0000
Subject: [PATCH 85/87] fix: address: Give every thread its own buffers

Threads that formatted addresses of objects of their own at the same time
overwrote each other's result, and one could read the index before another
one had wrapped it around, which selected a buffer that does not exist.
---
 src/address.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/address.c b/src/address.c
index d338243..e430b46 100644
--- a/src/address.c
+++ b/src/address.c
@@ -27,8 +27,8 @@
 #define LOC_ADDRESS_BUFFERS				6
 #define LOC_ADDRESS_BUFFER_LENGTH		INET6_ADDRSTRLEN
 
-static char __loc_address_buffers[LOC_ADDRESS_BUFFERS][LOC_ADDRESS_BUFFER_LENGTH + 1];
-static int  __loc_address_buffer_idx = 0;
+static __thread char __loc_address_buffers[LOC_ADDRESS_BUFFERS][LOC_ADDRESS_BUFFER_LENGTH + 1];
+static __thread int  __loc_address_buffer_idx = 0;
 
 static const char* __loc_address6_str(const struct in6_addr* address, char* buffer, size_t length) {
 	return inet_ntop(AF_INET6, address, buffer, length);
-- 
2.43.0


From 5133edfa044452dbe4863ea68158aa89a159351d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:11 +0000
Subject: [PATCH 86/87] fix: export: Search for the flags that special country
 codes stand for

Networks that do not have any of the countries that are being exported
as well were missing from the files of A1, A2, A3 and XD.
---
 src/python/location/export.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/python/location/export.py b/src/python/location/export.py
index 930923f..3f7b937 100644
--- a/src/python/location/export.py
+++ b/src/python/location/export.py
@@ -260,9 +260,15 @@ class Exporter(object):
 				country_code for country_code in countries if not country_code in FLAGS.values()
 			]
 
+			# Search for the flags that the special country codes stand for
+			flags = 0
+			for flag in FLAGS:
+				if FLAGS[flag] in countries:
+					flags |= flag
+
 			# Get all networks that match the family
 			networks = self.db.search_networks(family=family,
-				country_codes=country_codes, asns=asns, flatten=True)
+				country_codes=country_codes, asns=asns, flags=flags, flatten=True)
 
 			# Walk through all networks
 			for network in networks:
-- 
2.43.0


From 815b28c51d111dd9ceb8474eb3557dabea08284a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:05 +0000
Subject: [PATCH 87/87] fix: location: Do not fail on countries that have no
 continent or name

---
 src/scripts/location.in | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/scripts/location.in b/src/scripts/location.in
index 9d42fbb..95546dc 100644
--- a/src/scripts/location.in
+++ b/src/scripts/location.in
@@ -292,7 +292,7 @@ class CLI(object):
 
 				print(format % (
 					_("Country"),
-					country.name if country else network.country_code),
+					country.name if country and country.name else network.country_code),
 				)
 
 			# Print AS information
@@ -498,10 +498,11 @@ class CLI(object):
 				country.code,
 			]
 
-			if ns.show_continent:
+			# Skip anything that has not been set
+			if ns.show_continent and country.continent_code:
 				line.append(country.continent_code)
 
-			if ns.show_name:
+			if ns.show_name and country.name:
 				line.append(country.name)
 
 			# Format the output
-- 
2.43.0


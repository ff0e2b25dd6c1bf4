From 44c55327d5226f824c08dd3d616c0a77c1530939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:06 +0000
Subject: [PATCH 001/102] fix: compare the contents of strings whose hashes are
 equal

Two different strings of the same length with the same 32-bit hash were
treated as equal, so a map lookup could return the value of another key.
---
 src/handlebars_string.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 690bd62..6a64c85 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -334,7 +334,8 @@ bool handlebars_string_eq(
     if( string1->len != string2->len ) {
         return false;
     } else {
-        return hbs_str_hash(string1) == hbs_str_hash(string2);
+        return hbs_str_hash(string1) == hbs_str_hash(string2)
+            && 0 == memcmp(string1->val, string2->val, string1->len);
     }
 }
 
-- 
2.43.0


From 9cdda0e8ab7c898de14556a4603028a74f359c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:06 +0000
Subject: [PATCH 002/102] fix: do not drop or misplace live entries when
 compacting a map

The write position never advanced past the entries before the first
tombstone, and skipped the tombstone itself when it did start.
---
 src/handlebars_map.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/handlebars_map.c b/src/handlebars_map.c
index cfaeed1..7bbe47e 100644
--- a/src/handlebars_map.c
+++ b/src/handlebars_map.c
@@ -551,8 +551,7 @@ void handlebars_map_sparse_array_compact(struct handlebars_map * map)
     // Scan until the first tombstone
     for (; i < map->vec_offset; i++) {
         if (0 == memcmp(&vec[i], &HANDLEBARS_MAP_TOMBSTONE_V, sizeof(HANDLEBARS_MAP_TOMBSTONE_V))) {
-            i++;
-            vec_offset++;
+            vec_offset = i++;
             break;
         }
     }
-- 
2.43.0


From dedd3b2207c5cadcc9414d998bb09a0569226ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:06 +0000
Subject: [PATCH 003/102] fix: reuse tombstones so that inserting into a
 churned map cannot fail

A typo kept empty_found unset for tombstones: once every table slot held an
entry or a tombstone, adding a new key threw although there was room.
---
 src/handlebars_map.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_map.c b/src/handlebars_map.c
index 7bbe47e..412d777 100644
--- a/src/handlebars_map.c
+++ b/src/handlebars_map.c
@@ -188,13 +188,15 @@ static inline struct ht_find_result map_find_entry(
     for (i = 0; i < table_capacity; i++) {
         pos = (start + i) % table_capacity;
         if (!table[pos]) {
-            ret.empty_found = true;
-            ret.empty_offset = pos;
+            if (!ret.empty_found) {
+                ret.empty_found = true;
+                ret.empty_offset = pos;
+            }
             break;
         } else if (table[pos] == HANDLEBARS_MAP_TOMBSTONE) {
             ret.tombstones++;
             if (!ret.empty_found) {
-                ret.empty_offset = true;
+                ret.empty_found = true;
                 ret.empty_offset = pos;
             }
         } else if( handlebars_string_eq(table[pos]->key, key) ) {
-- 
2.43.0


From f9ee7593cdb84c65caabe0b2cfc02770634ba36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:06 +0000
Subject: [PATCH 004/102] fix: reject adding an existing key before the map is
 reallocated

The duplicate was detected after the rehash had released the caller's map,
leaving the caller with a dangling pointer when the error was thrown.
---
 src/handlebars_map.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_map.c b/src/handlebars_map.c
index 412d777..eb319dd 100644
--- a/src/handlebars_map.c
+++ b/src/handlebars_map.c
@@ -401,12 +401,17 @@ void handlebars_map_dtor(struct handlebars_map * map)
 
 struct handlebars_map * handlebars_map_add(struct handlebars_map * map, struct handlebars_string * key, struct handlebars_value * value)
 {
+    // Check before rehashing: the caller still refers to the original map if we throw
+    if (map_find_entry(map, key).entry_found) {
+        handlebars_throw(map->ctx, HANDLEBARS_ERROR, "Failed to add to hash table");
+    }
+
     // Rehash
     map = handlebars_map_rehash(map, false);
 
     // Add
     struct ht_find_result o = map_find_entry(map, key);
-    if (o.entry_found || !o.empty_found) {
+    if (!o.empty_found) {
         // this should never happen - unless rehash locked due to iteration
         handlebars_throw(map->ctx, HANDLEBARS_ERROR, "Failed to add to hash table");
     }
-- 
2.43.0


From 3f4ec9fda302a47e8672afd4335de93daa44f3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:22 +0000
Subject: [PATCH 005/102] fix: hold a reference to a map while its values are
 iterated

The iterator marked the map as being in iteration instead, which aborted on
nested iteration of the same map and stayed set when an error was thrown
from the loop body, after which adding to the map wrote past its end.
---
 src/handlebars_partial_loader.c | 16 +++++++---------
 src/handlebars_value.c          | 18 ++++++++----------
 2 files changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/handlebars_partial_loader.c b/src/handlebars_partial_loader.c
index a12ff28..6f97ce7 100644
--- a/src/handlebars_partial_loader.c
+++ b/src/handlebars_partial_loader.c
@@ -138,16 +138,14 @@ static bool hbs_partial_loader_iterator_next_void(struct handlebars_value_iterat
 
 static bool hbs_partial_loader_iterator_next_map(struct handlebars_value_iterator * it)
 {
-    struct handlebars_partial_loader * intern = GET_INTERN_V(it->value);
-    struct handlebars_map * map = intern->map;
+    struct handlebars_map * map = (struct handlebars_map *) it->usr;
     struct handlebars_value * tmp;
 
-    assert(it->value != NULL);
-    assert(handlebars_value_get_type(it->value) == HANDLEBARS_VALUE_TYPE_MAP);
+    assert(map != NULL);
 
     if( it->index >= handlebars_map_count(map) - 1 ) {
         handlebars_value_dtor(it->cur);
-        handlebars_map_set_is_in_iteration(map, false);
+        handlebars_map_delref(map);
         return false;
     }
 
@@ -174,10 +172,9 @@ static bool hbs_partial_loader_iterator_init(struct handlebars_value_iterator *
     handlebars_map_get_kv_at_index(map, it->index, &it->key, &tmp);
     handlebars_value_value(it->cur, tmp);
     it->next = &hbs_partial_loader_iterator_next_map;
-    if (handlebars_map_set_is_in_iteration(map, true)) {
-        fprintf(stderr, "Nested map iteration is not currently supported [%s:%d]", __FILE__, __LINE__);
-        abort();
-    }
+    // Hold a reference so that the map is separated if modified during the iteration
+    it->usr = map;
+    handlebars_map_addref(map);
 
     return true;
 }
@@ -212,6 +209,7 @@ struct handlebars_value * handlebars_value_partial_loader_init(
     obj->base_path = talloc_steal(obj, handlebars_string_copy_ctor(context, base_path));
     obj->extension = talloc_steal(obj, handlebars_string_copy_ctor(context, extension));
     obj->map = talloc_steal(obj, handlebars_map_ctor(context, 32));
+    handlebars_map_addref(obj->map);
     talloc_set_destructor(obj, partial_loader_dtor);
     handlebars_value_user(rv, (struct handlebars_user *) obj);
     return rv;
diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index 117e959..9037a83 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -842,20 +842,19 @@ static bool handlebars_value_iterator_next_stack(struct handlebars_value_iterato
 
 static bool handlebars_value_iterator_next_map(struct handlebars_value_iterator * it)
 {
+    struct handlebars_map * map = (struct handlebars_map *) it->usr;
     struct handlebars_value * tmp;
 
-    assert(it->value != NULL);
-    assert(it->value->type == HANDLEBARS_VALUE_TYPE_MAP);
+    assert(map != NULL);
 
-
-    if( it->index >= handlebars_map_count(it->value->v.map) - 1 ) {
+    if( it->index >= handlebars_map_count(map) - 1 ) {
         handlebars_value_dtor(it->cur);
-        handlebars_map_set_is_in_iteration(it->value->v.map, false);
+        handlebars_map_delref(map);
         return false;
     }
 
     it->index++;
-    handlebars_map_get_kv_at_index(it->value->v.map, it->index, &it->key, &tmp);
+    handlebars_map_get_kv_at_index(map, it->index, &it->key, &tmp);
     handlebars_value_value(it->cur, tmp);
     return true;
 }
@@ -890,10 +889,9 @@ bool handlebars_value_iterator_init(struct handlebars_value_iterator * it, struc
             handlebars_map_get_kv_at_index(value->v.map, it->index, &it->key, &tmp);
             handlebars_value_value(it->cur, tmp);
             it->next = &handlebars_value_iterator_next_map;
-            if (handlebars_map_set_is_in_iteration(value->v.map, true)) {
-                fprintf(stderr, "Nested map iteration is not currently supported [%s:%d]", __FILE__, __LINE__);
-                abort();
-            }
+            // Hold a reference so that the map is separated if modified during the iteration
+            it->usr = value->v.map;
+            handlebars_map_addref(value->v.map);
             return true;
 
         case HANDLEBARS_VALUE_TYPE_USER:
-- 
2.43.0


From aa448d94032b0ccb948c2ef921e1ecf00b956c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:03 +0000
Subject: [PATCH 006/102] fix: assigning a value to itself or to its own
 container must not free it first

---
 src/handlebars_value.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index 9037a83..5b380ad 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -517,7 +517,8 @@ void handlebars_value_closure(struct handlebars_value * value, struct handlebars
 
 void handlebars_value_value(struct handlebars_value * dest, struct handlebars_value * src)
 {
-    handlebars_value_null(dest);
+    // The source may be kept alive by the destination only, so do not release that first
+    struct handlebars_value prev = *dest;
     *dest = *src;
     switch( dest->type ) {
         case HANDLEBARS_VALUE_TYPE_ARRAY:
@@ -542,6 +543,7 @@ void handlebars_value_value(struct handlebars_value * dest, struct handlebars_va
             // do nothing
             break;
     }
+    handlebars_value_null(&prev);
 }
 
 void handlebars_value_set_flag(
-- 
2.43.0


From c4ff423560cbc61a71b98d4835152e1d9a000cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:34 +0000
Subject: [PATCH 007/102] fix: errors inside partials are passed on and leave
 the VM in a usable state

execute_template() swallowed errors of the partial (rendering it as an empty
string, with vm->module left pointing to freed memory) and looked templates up
in the cache under another key than the one they were added with.
---
 src/handlebars_vm.c | 113 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 87 insertions(+), 26 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 114b227..7b522db 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -329,10 +329,11 @@ static struct handlebars_string * execute_template(
     int escape,
     bool use_delimiters
 ) {
-    struct handlebars_context * context = handlebars_context_ctor_ex(vm);
+    struct handlebars_context * volatile context = NULL;
     struct handlebars_string * volatile retval = NULL;
-    struct handlebars_module * volatile module = vm->cache ? handlebars_cache_find(vm->cache, tmpl) : NULL;
-    bool const from_cache = module != NULL;
+    struct handlebars_module * volatile module = NULL;
+    bool volatile from_cache = false;
+    bool volatile failed = false;
     long prev_depth = vm->depth;
     jmp_buf * prev_jmp = HBSCTX(vm)->e->jmp;
     jmp_buf buf;
@@ -346,24 +347,36 @@ static struct handlebars_string * execute_template(
 
     // Save jmp buf
     if( handlebars_setjmp_ex(vm, &buf) ) {
+        failed = true;
         goto done;
     }
 
+    // The parser and the compiler report their errors to the VM
+    context = MC(handlebars_talloc_zero(vm, struct handlebars_context));
+    handlebars_context_bind(HBSCTX(vm), context);
+
+    if (vm->flags & handlebars_compiler_flag_compat) {
+        tmpl = handlebars_preprocess_delimiters(
+            CONTEXT,
+            tmpl,
+            use_delimiters ? vm->delim_open : NULL,
+            use_delimiters ? vm->delim_close : NULL
+        );
+        if (indent) {
+            tmpl = handlebars_string_indent(CONTEXT, tmpl, indent);
+        }
+        handlebars_string_addref(tmpl);
+    }
+
     // Check for cached template, if available
+    if( vm->cache ) {
+        module = handlebars_cache_find(vm->cache, tmpl);
+        from_cache = module != NULL;
+    }
+
     if( !from_cache ) {
         // Parse
         struct handlebars_parser * parser = handlebars_parser_ctor(context);
-        if (vm->flags & handlebars_compiler_flag_compat) {
-            tmpl = handlebars_preprocess_delimiters(
-                HBSCTX(context),
-                tmpl,
-                use_delimiters ? vm->delim_open : NULL,
-                use_delimiters ? vm->delim_close : NULL
-            );
-            if (indent) {
-                tmpl = handlebars_string_indent(CONTEXT, tmpl, indent);
-            }
-        }
         struct handlebars_ast_node * ast = handlebars_parse_ex(parser, tmpl, vm->flags);
 
         // Compile
@@ -399,7 +412,20 @@ done:
         handlebars_cache_release(vm->cache, tmpl, module);
     }
     handlebars_string_delref(tmpl);
-    handlebars_context_dtor(context);
+    if (unlikely(failed)) {
+        // The message may be owned by the context that is about to be freed
+        struct handlebars_error * e = HBSCTX(vm)->e;
+        const char * msg = e->msg ? talloc_strdup(HBSCTX(vm), e->msg) : NULL;
+        e->msg = msg ? msg : HANDLEBARS_MEMCHECK_MSG;
+        if (context) {
+            handlebars_context_dtor(context);
+        }
+        if (prev_jmp) {
+            longjmp(*prev_jmp, e->num);
+        }
+    } else if (context) {
+        handlebars_context_dtor(context);
+    }
     if (retval) {
         return retval;
     } else {
@@ -1387,36 +1413,49 @@ struct handlebars_string * handlebars_vm_execute_ex(
     jmp_buf * prev = HBSCTX(vm)->e->jmp;
     struct handlebars_module * prev_module = vm->module;
     unsigned long prev_flags = vm->flags;
+    long prev_depth = vm->depth;
+    struct handlebars_string * prev_buffer = vm->buffer;
+    struct handlebars_string * prev_last_helper = vm->last_helper;
     struct handlebars_value * prev_last_context = vm->last_context;
     struct handlebars_string * prev_delim_open = vm->delim_open;
     struct handlebars_string * prev_delim_close = vm->delim_close;
+    HANDLEBARS_VALUE_DECL(prev_data);
 
-    struct handlebars_string * buffer = NULL;
-    bool volatile setup_stacks = false;
+    struct handlebars_string * volatile buffer = NULL;
+    bool volatile failed = false;
+    bool const setup_stacks = vm->stack == NULL;
+    struct handlebars_stack_save_buf saved[5] = {{0}};
     jmp_buf buf;
 
-    // Save jump buffer
-    if( !prev ) {
-        if( handlebars_setjmp_ex(vm, &buf) ) {
-            goto done;
-        }
-    }
-
     // Setup stacks
-    if (vm->stack == NULL) {
+    if (setup_stacks) {
         vm->stack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
         vm->contextStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
         vm->hashStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
         vm->blockParamStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
         vm->partialBlockStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
-        setup_stacks = true;
     }
 
+    struct handlebars_stack * const stacks[5] = {
+        vm->stack, vm->contextStack, vm->hashStack, vm->blockParamStack, vm->partialBlockStack
+    };
+    for (size_t i = 0; i < 5; i++) {
+        saved[i] = handlebars_stack_save(stacks[i]);
+    }
+    handlebars_value_value(prev_data, &vm->data);
+
     if (vm->last_context == NULL) {
         vm->last_context = alloca(HANDLEBARS_VALUE_SIZE);
         handlebars_value_init(vm->last_context);
     }
 
+    // Save jump buffer, so that the state of the VM can be restored when an error is thrown
+    if( handlebars_setjmp_ex(vm, &buf) ) {
+        failed = true;
+        buffer = NULL;
+        goto done;
+    }
+
     vm->module = module;
     vm->flags |= module->flags;
 
@@ -1427,12 +1466,21 @@ done:
     HBSCTX(vm)->e->jmp = prev;
 
     // Reset stacks
+    for (size_t i = 0; i < 5; i++) {
+        handlebars_stack_restore(stacks[i], saved[i]);
+    }
     if (setup_stacks) {
         vm->stack = NULL;
         vm->contextStack = NULL;
         vm->hashStack = NULL;
         vm->blockParamStack = NULL;
         vm->partialBlockStack = NULL;
+    } else {
+        vm->stack = stacks[0];
+        vm->contextStack = stacks[1];
+        vm->hashStack = stacks[2];
+        vm->blockParamStack = stacks[3];
+        vm->partialBlockStack = stacks[4];
     }
 
     // Reset
@@ -1442,6 +1490,19 @@ done:
     vm->module = prev_module;
     vm->flags = prev_flags;
 
+    if (unlikely(failed)) {
+        vm->depth = prev_depth;
+        vm->buffer = prev_buffer;
+        vm->last_helper = prev_last_helper;
+        handlebars_value_value(&vm->data, prev_data);
+    }
+    HANDLEBARS_VALUE_UNDECL(prev_data);
+
+    // Pass the error on
+    if (unlikely(failed) && prev) {
+        longjmp(*prev, HBSCTX(vm)->e->num);
+    }
+
     return buffer;
 }
 
-- 
2.43.0


From ccdfaeba1cfea7e92db4d825d6ba24ec7fe6e8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:34 +0000
Subject: [PATCH 008/102] fix: @root is the outermost context, not the
 innermost one

---
 src/handlebars_vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 7b522db..c055918 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -1017,7 +1017,7 @@ ACCEPT_FUNCTION(lookup_data)
     if( data && (tmp = handlebars_value_map_find(data, first->string, rv)) ) {
         handlebars_value_value(val, tmp);
     } else if (hbs_str_eq_strl(first->string, HBS_STRL("root"))) {
-        handlebars_value_value(val, TOP(vm->contextStack));
+        handlebars_value_value(val, handlebars_stack_get(vm->contextStack, 0));
     } else if (hbs_str_eq_strl(first->string, HBS_STRL("partial-block"))) {
         handlebars_value_value(val, TOP(vm->partialBlockStack));
     } else if( vm->flags & handlebars_compiler_flag_assume_objects ) {
-- 
2.43.0


From dd6d4b9ff8f719862d1ed5675509900a60429c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:34 +0000
Subject: [PATCH 009/102] fix: a missing part of a block parameter or data path
 evaluates to nothing

---
 src/handlebars_vm.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index c055918..031a367 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -962,13 +962,15 @@ ACCEPT_FUNCTION(lookup_block_param)
         for( i = 1; i < arr_len; i++ ) {
             tmp2 = handlebars_value_map_find(tmp, arr[i].string, rv);
             if( tmp2 ) {
-                tmp = tmp2;
+                handlebars_value_value(value, tmp2);
+                tmp = value;
             } else {
+                tmp = NULL;
                 break;
             }
         }
-        if (tmp) {
-            handlebars_value_value(value, tmp);
+        if (!tmp) {
+            handlebars_value_null(value);
         }
     } else {
         handlebars_value_value(value, v2);
@@ -1033,6 +1035,9 @@ ACCEPT_FUNCTION(lookup_data)
             handlebars_value_value(val, tmp);
         } else if( is_strict || require_terminal ) {
             goto done_and_err;
+        } else {
+            handlebars_value_null(val);
+            break;
         }
     }
 
-- 
2.43.0


From ef0b6e8eb6959ebcd065f23019dc7a2d09f4edf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:34 +0000
Subject: [PATCH 010/102] fix: hash arguments of a partial are not lost when
 its context is empty

---
 src/handlebars_vm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 031a367..da4d93d 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -314,6 +314,9 @@ static inline struct handlebars_value * merge_hash(struct handlebars_context * c
             new_map = handlebars_map_update(new_map, key, child);
         } HANDLEBARS_VALUE_FOREACH_END();
         handlebars_value_map(input, new_map);
+    } else if( handlebars_value_get_type(input) == HANDLEBARS_VALUE_TYPE_MAP && handlebars_value_count(input) == 0 &&
+            hash && handlebars_value_get_type(hash) == HANDLEBARS_VALUE_TYPE_MAP && handlebars_value_count(hash) > 0 ) {
+        handlebars_value_value(input, hash);
     } else if( handlebars_value_get_type(input) == HANDLEBARS_VALUE_TYPE_NULL && hash ) {
         handlebars_value_value(input, hash);
     }
-- 
2.43.0


From fe9102881cbd367673a42d854772df6c883f4a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:46 +0000
Subject: [PATCH 011/102] fix: @partial-block refers to the block even when
 partials are loaded by name

---
 src/handlebars_vm.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index da4d93d..3760f75 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -831,15 +831,14 @@ ACCEPT_FUNCTION(invoke_partial)
         }
     }
 
-    if (name) {
+    if (name && hbs_str_eq_strl(name, HBS_STRL("@partial-block")) && LEN(vm->partialBlockStack) > 0) {
+        // Look up partial block first, the partials may be loaded from elsewhere by name
+        handlebars_value_value(partial_rv, TOP(vm->partialBlockStack));
+        partial = partial_rv;
+    } else if (name) {
         partial = handlebars_value_map_find(&vm->partials, name, partial_rv);
     }
 
-    // Try to look up partial block
-    if (!partial && name && hbs_str_eq_strl(name, HBS_STRL("@partial-block")) && LEN(vm->partialBlockStack) > 0) {
-        partial = TOP(vm->partialBlockStack);
-    }
-
     // Push partial block
     if (options.program > 0) {
         const int closure_localc = 3;
-- 
2.43.0


From 3341b00f09dfa01fac377c6b67c2411bd9fa49a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:46 +0000
Subject: [PATCH 012/102] fix: looking up an index outside of an array
 evaluates to nothing

---
 src/handlebars_helpers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_helpers.c b/src/handlebars_helpers.c
index 0168746..27109a3 100644
--- a/src/handlebars_helpers.c
+++ b/src/handlebars_helpers.c
@@ -265,7 +265,7 @@ struct handlebars_value * handlebars_builtin_lookup(HANDLEBARS_HELPER_ARGS)
     } else if( type == HANDLEBARS_VALUE_TYPE_ARRAY ) {
         // @todo sscanf?
         if( handlebars_value_get_type(field) == HANDLEBARS_VALUE_TYPE_INTEGER ) {
-            rv = handlebars_value_array_find(context, handlebars_value_get_intval(field), rv);
+            (void) handlebars_value_array_find(context, handlebars_value_get_intval(field), rv);
         }
     }
 
-- 
2.43.0


From 04b77ae7a641c0b9c42c8bd69e5c46eeb62337d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:23 +0000
Subject: [PATCH 013/102] fix: block params are visible inside of nested blocks
 and partial blocks

The compiler numbers block params by counting every enclosing program, but the
VM only pushed an entry for those programs that had any.
---
 src/handlebars_vm.c | 29 +++++++++++++++++++++++------
 src/handlebars_vm.h |  4 ++++
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 3760f75..5cf68ed 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -439,14 +439,16 @@ done:
 HANDLEBARS_CLOSURE_ATTRS
 static struct handlebars_value * invoke_partial_block_closure(HANDLEBARS_CLOSURE_ARGS)
 {
-    assert(localc >= 3);
+    assert(localc >= 4);
     assert(HANDLEBARS_LOCAL_AT(0)->type == HANDLEBARS_VALUE_TYPE_PTR);
     assert(HANDLEBARS_LOCAL_AT(1)->type == HANDLEBARS_VALUE_TYPE_INTEGER);
     assert(HANDLEBARS_LOCAL_AT(2)->type == HANDLEBARS_VALUE_TYPE_INTEGER);
+    assert(HANDLEBARS_LOCAL_AT(3)->type == HANDLEBARS_VALUE_TYPE_INTEGER);
 
     struct handlebars_module * module = handlebars_value_get_ptr(HANDLEBARS_LOCAL_AT(0), struct handlebars_module);
     long program = handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(1));
     long partial_block_depth = handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(2));
+    size_t block_param_depth = (size_t) handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(3));
     bool pushed_partial_block = false;
 
     // Push partial block
@@ -455,13 +457,23 @@ static struct handlebars_value * invoke_partial_block_closure(HANDLEBARS_CLOSURE
         PUSH(vm->partialBlockStack, handlebars_stack_get(vm->partialBlockStack, partial_block_depth - 1));
     }
 
+    // The block sees the block params of where it was defined, not those of the partial invoking it
+    struct handlebars_stack * prev_block_params = vm->blockParamStack;
+    vm->blockParamStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_BLOCK_PARAM_STACK_SIZE);
+    for (size_t i = 0; i < block_param_depth; i++) {
+        PUSH(vm->blockParamStack, handlebars_stack_get(prev_block_params, i));
+    }
+
     struct handlebars_value * input = argc > 0 ? &argv[0] : TOP(vm->contextStack);
     struct handlebars_string * buffer;
     if (vm->module == module) {
-        buffer = handlebars_vm_execute_program_ex(vm, program, input, NULL, TOP(vm->blockParamStack));
+        buffer = handlebars_vm_execute_program(vm, program, input);
     } else {
-        buffer = handlebars_vm_execute_ex(vm, module, input, program, NULL, TOP(vm->blockParamStack));
+        buffer = handlebars_vm_execute_ex(vm, module, input, program, NULL, NULL);
     }
+
+    handlebars_stack_truncate(vm->blockParamStack, 0);
+    vm->blockParamStack = prev_block_params;
     if (buffer) {
         handlebars_value_str(rv, buffer);
     }
@@ -841,11 +853,12 @@ ACCEPT_FUNCTION(invoke_partial)
 
     // Push partial block
     if (options.program > 0) {
-        const int closure_localc = 3;
+        const int closure_localc = 4;
         HANDLEBARS_VALUE_ARRAY_DECL(closure_localv, closure_localc);
         handlebars_value_ptr(&closure_localv[0], handlebars_ptr_ctor(CONTEXT, struct handlebars_module, vm->module, true));
         handlebars_value_integer(&closure_localv[1], options.program);
         handlebars_value_integer(&closure_localv[2], LEN(vm->partialBlockStack));
+        handlebars_value_integer(&closure_localv[3], LEN(vm->blockParamStack));
         handlebars_value_closure(partial_block, handlebars_closure_ctor(vm, invoke_partial_block_closure, closure_localc, closure_localv));
         pushed_partial_block = true;
         PUSH(vm->partialBlockStack, partial_block);
@@ -1371,9 +1384,12 @@ struct handlebars_string * handlebars_vm_execute_program_ex(
         handlebars_value_value(&vm->data, data);
     }
 
-    // Set block params
+    // Set block params. The compiler counts every program but the main one, whether it has any or not
+    HANDLEBARS_VALUE_DECL(no_block_params);
     if( block_params ) {
         PUSH(vm->blockParamStack, block_params);
+    } else if( program_num > 0 ) {
+        PUSH(vm->blockParamStack, no_block_params);
     }
 
     // Execute the program
@@ -1396,6 +1412,7 @@ struct handlebars_string * handlebars_vm_execute_program_ex(
         handlebars_value_value(&vm->data, prev_data);
     }
     HANDLEBARS_VALUE_UNDECL(prev_data);
+    HANDLEBARS_VALUE_UNDECL(no_block_params);
 
     // Restore buffer
     struct handlebars_string * buffer = vm->buffer;
@@ -1439,7 +1456,7 @@ struct handlebars_string * handlebars_vm_execute_ex(
         vm->stack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
         vm->contextStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
         vm->hashStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
-        vm->blockParamStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
+        vm->blockParamStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_BLOCK_PARAM_STACK_SIZE);
         vm->partialBlockStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
     }
 
diff --git a/src/handlebars_vm.h b/src/handlebars_vm.h
index 45deb93..e3ace84 100644
--- a/src/handlebars_vm.h
+++ b/src/handlebars_vm.h
@@ -34,6 +34,10 @@ struct handlebars_vm;
 #define HANDLEBARS_VM_STACK_SIZE 96
 #endif
 
+#ifndef HANDLEBARS_VM_BLOCK_PARAM_STACK_SIZE
+#define HANDLEBARS_VM_BLOCK_PARAM_STACK_SIZE (HANDLEBARS_VM_STACK_SIZE * 4)
+#endif
+
 #ifndef HANDLEBARS_VM_BUFFER_INIT_SIZE
 #define HANDLEBARS_VM_BUFFER_INIT_SIZE 128
 #endif
-- 
2.43.0


From 8756e7861ff24701ce7a7580367e0a23e3044312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:29 +0000
Subject: [PATCH 014/102] fix: @partial-block inside of an outermost partial
 block does not invoke itself forever

---
 src/handlebars_vm.c | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 5cf68ed..af8f7f7 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -449,13 +449,13 @@ static struct handlebars_value * invoke_partial_block_closure(HANDLEBARS_CLOSURE
     long program = handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(1));
     long partial_block_depth = handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(2));
     size_t block_param_depth = (size_t) handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(3));
-    bool pushed_partial_block = false;
+    HANDLEBARS_VALUE_DECL(outer_partial_block);
 
-    // Push partial block
+    // Push partial block, or nothing if this is the outermost one
     if (partial_block_depth > 0) {
-        pushed_partial_block = true;
-        PUSH(vm->partialBlockStack, handlebars_stack_get(vm->partialBlockStack, partial_block_depth - 1));
+        handlebars_value_value(outer_partial_block, handlebars_stack_get(vm->partialBlockStack, partial_block_depth - 1));
     }
+    PUSH(vm->partialBlockStack, outer_partial_block);
 
     // The block sees the block params of where it was defined, not those of the partial invoking it
     struct handlebars_stack * prev_block_params = vm->blockParamStack;
@@ -479,15 +479,8 @@ static struct handlebars_value * invoke_partial_block_closure(HANDLEBARS_CLOSURE
     }
 
     // Pop partial block
-    if (pushed_partial_block) {
-        // This should never happen, but we need to convince scan-build of it
-        assert(vm->partialBlockStack != NULL);
-        if (!vm->partialBlockStack) return rv;
-
-        HANDLEBARS_VALUE_DECL(closure_value);
-        POP(vm->partialBlockStack, closure_value);
-        HANDLEBARS_VALUE_UNDECL(closure_value);
-    }
+    POP(vm->partialBlockStack, outer_partial_block);
+    HANDLEBARS_VALUE_UNDECL(outer_partial_block);
 
     return rv;
 }
@@ -843,7 +836,8 @@ ACCEPT_FUNCTION(invoke_partial)
         }
     }
 
-    if (name && hbs_str_eq_strl(name, HBS_STRL("@partial-block")) && LEN(vm->partialBlockStack) > 0) {
+    if (name && hbs_str_eq_strl(name, HBS_STRL("@partial-block")) && LEN(vm->partialBlockStack) > 0 &&
+            TOP(vm->partialBlockStack)->type != HANDLEBARS_VALUE_TYPE_NULL) {
         // Look up partial block first, the partials may be loaded from elsewhere by name
         handlebars_value_value(partial_rv, TOP(vm->partialBlockStack));
         partial = partial_rv;
-- 
2.43.0


From 861e7581935d0698caf6fec79089b274fd6de147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:29 +0000
Subject: [PATCH 015/102] fix: a partial that includes itself is an error
 instead of exhausting the stack

---
 src/handlebars_vm.c | 4 ++++
 src/handlebars_vm.h | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index af8f7f7..7dcded9 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -354,6 +354,10 @@ static struct handlebars_string * execute_template(
         goto done;
     }
 
+    if (vm->depth >= HANDLEBARS_VM_MAX_DEPTH) {
+        handlebars_throw(CONTEXT, HANDLEBARS_STACK_OVERFLOW, "Partials nested too deeply");
+    }
+
     // The parser and the compiler report their errors to the VM
     context = MC(handlebars_talloc_zero(vm, struct handlebars_context));
     handlebars_context_bind(HBSCTX(vm), context);
diff --git a/src/handlebars_vm.h b/src/handlebars_vm.h
index e3ace84..6679701 100644
--- a/src/handlebars_vm.h
+++ b/src/handlebars_vm.h
@@ -38,6 +38,10 @@ struct handlebars_vm;
 #define HANDLEBARS_VM_BLOCK_PARAM_STACK_SIZE (HANDLEBARS_VM_STACK_SIZE * 4)
 #endif
 
+#ifndef HANDLEBARS_VM_MAX_DEPTH
+#define HANDLEBARS_VM_MAX_DEPTH 256
+#endif
+
 #ifndef HANDLEBARS_VM_BUFFER_INIT_SIZE
 #define HANDLEBARS_VM_BUFFER_INIT_SIZE 128
 #endif
-- 
2.43.0


From 22b56599b082b544a4ee4daecf87076ed2d5e173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:29 +0000
Subject: [PATCH 016/102] fix: do not write past the end of the compiler's
 stacks

---
 src/handlebars_compiler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index 933770e..d83abad 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -691,7 +691,7 @@ static inline void handlebars_compiler_accept_program(
 
     assert(compiler != NULL);
 
-    if( compiler->bps->i > HANDLEBARS_COMPILER_STACK_SIZE ) {
+    if( compiler->bps->i >= HANDLEBARS_COMPILER_STACK_SIZE ) {
         handlebars_throw(CONTEXT, HANDLEBARS_STACK_OVERFLOW, "Block param stack blown");
     }
     compiler->bps->s[compiler->bps->i].block_param1 = block_param1;
@@ -1367,7 +1367,7 @@ static void handlebars_compiler_accept(
     }
 
     // Add node to source node stack
-    if( compiler->sns->i > HANDLEBARS_COMPILER_STACK_SIZE ) {
+    if( compiler->sns->i >= HANDLEBARS_COMPILER_STACK_SIZE ) {
         handlebars_throw(CONTEXT, HANDLEBARS_STACK_OVERFLOW, "Source node stack blown");
     }
     compiler->sns->s[compiler->sns->i] = node;
-- 
2.43.0


From 66f50c4e6461b7e82dcc06068118dbb324c55fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:46 +0000
Subject: [PATCH 017/102] fix: do not crash when testing for @partial-block
 outside of a partial block

---
 src/handlebars_vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 7dcded9..cc10706 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -1033,7 +1033,7 @@ ACCEPT_FUNCTION(lookup_data)
         handlebars_value_value(val, tmp);
     } else if (hbs_str_eq_strl(first->string, HBS_STRL("root"))) {
         handlebars_value_value(val, handlebars_stack_get(vm->contextStack, 0));
-    } else if (hbs_str_eq_strl(first->string, HBS_STRL("partial-block"))) {
+    } else if (hbs_str_eq_strl(first->string, HBS_STRL("partial-block")) && LEN(vm->partialBlockStack) > 0) {
         handlebars_value_value(val, TOP(vm->partialBlockStack));
     } else if( vm->flags & handlebars_compiler_flag_assume_objects ) {
         goto done_and_err;
-- 
2.43.0


From fe016729cfd3815f6f7845722c6ddc8a33bdfbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:46 +0000
Subject: [PATCH 018/102] fix: a value does not stay marked as safe after its
 string was replaced

---
 src/handlebars_value.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index 5b380ad..b502c94 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -99,6 +99,7 @@ void handlebars_value_dtor(struct handlebars_value * value)
 
     // Initialize to null
     value->type = HANDLEBARS_VALUE_TYPE_NULL;
+    value->flags = 0;
     memset(&value->v, 0, sizeof(value->v));
 
 #ifdef HANDLEBARS_HAVE_VALGRIND
-- 
2.43.0


From 2477d7c2eb44d10d3c744c5fa260137ecfe1af2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:06 +0000
Subject: [PATCH 019/102] fix: @../ reaches the data of the enclosing #each

---
 src/handlebars_helpers.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_helpers.c b/src/handlebars_helpers.c
index 27109a3..4ba6d1c 100644
--- a/src/handlebars_helpers.c
+++ b/src/handlebars_helpers.c
@@ -102,13 +102,14 @@ struct handlebars_value * handlebars_builtin_each(HANDLEBARS_HELPER_ARGS)
         handlebars_value_array(block_params, handlebars_stack_ctor(CONTEXT, 2));
 
         if( handlebars_value_get_type(options->data) == HANDLEBARS_VALUE_TYPE_MAP ) {
-            data_map = handlebars_map_ctor(CONTEXT, handlebars_value_count(options->data) + 4);
+            data_map = handlebars_map_ctor(CONTEXT, handlebars_value_count(options->data) + 5);
             HANDLEBARS_VALUE_FOREACH_KV(options->data, options_key, child) {
                 data_map = handlebars_map_update(data_map, options_key, child);
             } HANDLEBARS_VALUE_FOREACH_END();
         } else {
-            data_map = handlebars_map_ctor(CONTEXT, 4);
+            data_map = handlebars_map_ctor(CONTEXT, 5);
         }
+        data_map = handlebars_map_str_update(data_map, HBS_STRL("_parent"), options->data);
         handlebars_map_addref(data_map);
     }
 
-- 
2.43.0


From e12c54e7b127fc8981b18d2b5889e1ffc7cd9b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:27 +0000
Subject: [PATCH 020/102] fix: a JSON null does not keep the previous value of
 the target

---
 src/handlebars_json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_json.c b/src/handlebars_json.c
index 13f4526..21ee5fe 100644
--- a/src/handlebars_json.c
+++ b/src/handlebars_json.c
@@ -285,7 +285,7 @@ void handlebars_value_init_json_object(struct handlebars_context * ctx, struct h
 
     switch( json_object_get_type(json) ) {
         case json_type_null:
-            // do nothing
+            handlebars_value_null(value);
             break;
         case json_type_boolean:
             handlebars_value_boolean(value, json_object_get_boolean(json));
-- 
2.43.0


From 9267cdd0002aa2c0413a874f4c0daae779099fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:27 +0000
Subject: [PATCH 021/102] fix: iterating an empty JSON object or array yields
 nothing

---
 src/handlebars_json.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_json.c b/src/handlebars_json.c
index 21ee5fe..f354aaf 100644
--- a/src/handlebars_json.c
+++ b/src/handlebars_json.c
@@ -224,11 +224,10 @@ static bool hbs_json_iterator_init(struct handlebars_value_iterator * it, struct
     switch( json_object_get_type(intern->object) ) {
         case json_type_object: {
             entry = json_object_get_object(intern->object)->head;
-            if (unlikely(entry == NULL)) { // LCOV_EXCL_START
-                assert(entry != NULL);
+            if (entry == NULL) {
                 it->next = &hbs_json_iterator_next_void;
                 return false;
-            } // LCOV_EXCL_STOP
+            }
             char * tmp = (char *) entry->k;
             it->usr = (void *) entry;
             it->key = handlebars_string_ctor(intern->user.ctx, tmp, strlen(tmp));
@@ -240,6 +239,10 @@ static bool hbs_json_iterator_init(struct handlebars_value_iterator * it, struct
 
         case json_type_array:
             it->index = 0;
+            if (json_object_array_length(intern->object) <= 0) {
+                it->next = &hbs_json_iterator_next_void;
+                return false;
+            }
             handlebars_value_init_json_object(intern->user.ctx, it->cur, json_object_array_get_idx(intern->object, (int) it->index));
             it->next = &hbs_json_iterator_next_array;
             return true;
-- 
2.43.0


From c596a482f40f346534688b0e589652a8cd303c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:53 +0000
Subject: [PATCH 022/102] fix: helperMissing is not called for a value that
 exists

---
 src/handlebars_vm.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index cc10706..77a8810 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -716,13 +716,17 @@ ACCEPT_FUNCTION(invoke_ambiguous)
         handlebars_string_addref(last_helper);
     } else if (value && is_callable) {
         fn = value;
-    } else {
+    } else if (value->type == HANDLEBARS_VALUE_TYPE_NULL) {
         struct handlebars_string * tmp_str = handlebars_string_ctor(CONTEXT, HBS_STRL("helperMissing"));
         fn = lookup_helper(vm, tmp_str, fnv);
         handlebars_string_delref(tmp_str);
     }
 
-    result = handlebars_value_call(fn, argc, argv, &options, vm, rv);
+    if (fn != NULL) {
+        result = handlebars_value_call(fn, argc, argv, &options, vm, rv);
+    } else {
+        result = value;
+    }
 
     // Before, the null case was only done for helperMissing
     if (result->type != HANDLEBARS_VALUE_TYPE_NULL) {
-- 
2.43.0


From d3d080d8be378a1cd9df7424e0f3ec4539a60722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:53 +0000
Subject: [PATCH 023/102] fix: the inverse block of #with runs in the
 surrounding context

---
 src/handlebars_helpers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_helpers.c b/src/handlebars_helpers.c
index 4ba6d1c..0e79af0 100644
--- a/src/handlebars_helpers.c
+++ b/src/handlebars_helpers.c
@@ -348,7 +348,7 @@ struct handlebars_value * handlebars_builtin_with(HANDLEBARS_HELPER_ARGS)
     assert(context != NULL);
 
     if( handlebars_value_get_type(context) == HANDLEBARS_VALUE_TYPE_NULL ) {
-        result_str = handlebars_vm_execute_program(vm, options->inverse, context);
+        result_str = handlebars_vm_execute_program(vm, options->inverse, options->scope);
     } else {
         handlebars_value_array(block_params, handlebars_stack_ctor(CONTEXT, 2));
         handlebars_value_array_set(block_params, 0, context);
-- 
2.43.0


From 1ee47a9a6ada94686aca7feb46067939ca618ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:13 +0000
Subject: [PATCH 024/102] fix: #unless is #if with its blocks exchanged

---
 src/handlebars_helpers.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/handlebars_helpers.c b/src/handlebars_helpers.c
index 0e79af0..0b8f144 100644
--- a/src/handlebars_helpers.c
+++ b/src/handlebars_helpers.c
@@ -312,18 +312,24 @@ struct handlebars_value * handlebars_builtin_if(HANDLEBARS_HELPER_ARGS)
 
 struct handlebars_value * handlebars_builtin_unless(HANDLEBARS_HELPER_ARGS)
 {
-    struct handlebars_value * conditional;
+    struct handlebars_value * result;
+    long program;
 
     if (argc != 1) {
         handlebars_throw(CONTEXT, HANDLEBARS_ERROR, "#unless requires exactly one argument");
     }
 
-    conditional = &argv[0];
-    assert(conditional != NULL);
+    // #unless is #if with its programs exchanged
+    program = options->program;
+    options->program = options->inverse;
+    options->inverse = program;
+
+    result = handlebars_vm_call_helper_str(HBS_STRL("if"), HANDLEBARS_HELPER_ARGS_PASSTHRU);
 
-    handlebars_value_boolean(conditional, handlebars_value_is_empty(conditional));
+    options->inverse = options->program;
+    options->program = program;
 
-    return handlebars_vm_call_helper_str(HBS_STRL("if"), HANDLEBARS_HELPER_ARGS_PASSTHRU);
+    return result;
 }
 
 struct handlebars_value * handlebars_builtin_with(HANDLEBARS_HELPER_ARGS)
-- 
2.43.0


From 6dbed37dbaf20867dd6ecf2ec6b203a9831ec084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:30 +0000
Subject: [PATCH 025/102] fix: a dynamic partial name works with an explicit
 partial context

---
 src/handlebars_compiler.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index d83abad..f2c8e3b 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -836,12 +836,7 @@ static inline void _handlebars_compiler_accept_partial(
             "Unsupported number of partial arguments"
         );
     } else if( !params || !handlebars_ast_list_count(params) ) {
-    	if( compiler->flags & handlebars_compiler_flag_explicit_partial_context ) {
-            struct handlebars_opcode * opcode = handlebars_opcode_ctor(CONTEXT, handlebars_opcode_type_push_literal);
-            handlebars_operand_set_stringval(CONTEXT, opcode, &opcode->op1, handlebars_string_ctor(CONTEXT, HBS_STRL("undefined")));
-            __PUSH(opcode);
-    		//__OPS(push_literal, "undefined";
-    	} else {
+    	if( !(compiler->flags & handlebars_compiler_flag_explicit_partial_context) ) {
 			if( !params ) {
 				params = talloc_steal(node, handlebars_ast_list_ctor(CONTEXT));
 				if( node->type == HANDLEBARS_AST_NODE_PARTIAL ) {
@@ -863,6 +858,13 @@ static inline void _handlebars_compiler_accept_partial(
     	handlebars_compiler_accept(compiler, name);
     }
 
+    if( count == 0 && (compiler->flags & handlebars_compiler_flag_explicit_partial_context) ) {
+        // The context has to be above the name on the stack
+        struct handlebars_opcode * opcode = handlebars_opcode_ctor(CONTEXT, handlebars_opcode_type_push_literal);
+        handlebars_operand_set_stringval(CONTEXT, opcode, &opcode->op1, handlebars_string_ctor(CONTEXT, HBS_STRL("undefined")));
+        __PUSH(opcode);
+    }
+
     programGuid = handlebars_compiler_compile_program(compiler, program);
 
     handlebars_compiler_setup_full_mustache_params(compiler, node, programGuid, -1, 1);
-- 
2.43.0


From 4cbc583e0dd5fa78d5c338c841cf8829e39b035d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:54 +0000
Subject: [PATCH 026/102] fix: a failed shrink does not lose the string

---
 src/handlebars_string.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 6a64c85..431f528 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -322,7 +322,11 @@ struct handlebars_string * handlebars_string_compact(struct handlebars_string *
     size_t size = HBS_STR_SIZE(string->len);
     if( talloc_get_size(string) > size ) {
         string = separate_string(string);
-        string = (struct handlebars_string *) handlebars_talloc_realloc_size(NULL, string, size);
+        // Shrinking is only an optimization, keep the original if it fails
+        struct handlebars_string * new_string = (struct handlebars_string *) handlebars_talloc_realloc_size(NULL, string, size);
+        if (new_string != NULL) {
+            string = new_string;
+        }
     }
     return string;
 }
-- 
2.43.0


From 0178aec23fc01adfdf21371a6104d89758d8863c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:41 +0000
Subject: [PATCH 027/102] fix: check the allocations of the opcode serializer

---
 src/handlebars_opcode_serializer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/handlebars_opcode_serializer.c b/src/handlebars_opcode_serializer.c
index c21dfb5..f10367b 100644
--- a/src/handlebars_opcode_serializer.c
+++ b/src/handlebars_opcode_serializer.c
@@ -241,6 +241,7 @@ struct handlebars_module * handlebars_program_serialize(
 ) {
     // Allocate initial buffer
     struct handlebars_module * module = handlebars_talloc_zero(context, struct handlebars_module);
+    HANDLEBARS_MEMCHECK(module, context);
     memcpy(&module->header, "HBSCM", sizeof("HBSCM"));
     module->version = handlebars_version();
     module->flags = program->flags;
@@ -251,6 +252,7 @@ struct handlebars_module * handlebars_program_serialize(
 
     // Reallocate buffer
     module = handlebars_talloc_realloc_size(context, module, module->size);
+    HANDLEBARS_MEMCHECK(module, context);
     module->addr = (void *) module;
     talloc_set_type(module, struct handlebars_module);
 
-- 
2.43.0


From b82f8eb35afafce2f4f328f0d170513bcfd7d08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:41 +0000
Subject: [PATCH 028/102] fix: check the allocation of a closure

---
 src/handlebars_closure.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/handlebars_closure.c b/src/handlebars_closure.c
index 404ea63..a0eebd6 100644
--- a/src/handlebars_closure.c
+++ b/src/handlebars_closure.c
@@ -83,6 +83,7 @@ struct handlebars_closure * handlebars_closure_ctor(
     struct handlebars_value * localv
 ) {
     struct handlebars_closure * closure = handlebars_talloc_zero_size(vm, sizeof(struct handlebars_closure) + (sizeof(struct handlebars_value) * localc));
+    HANDLEBARS_MEMCHECK(closure, HBSCTX(vm));
     talloc_set_type(closure, struct handlebars_closure);
 #ifndef HANDLEBARS_NO_REFCOUNT
     handlebars_rc_init(&closure->rc);
-- 
2.43.0


From 752c46097a78e3d2f29f24c64b7a860d5a120e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:41 +0000
Subject: [PATCH 029/102] fix: a value dump that runs out of memory fails
 instead of dropping text

---
 src/handlebars_value.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index b502c94..bccbb0d 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -744,46 +744,46 @@ char * handlebars_value_dump(struct handlebars_value * value, struct handlebars_
 
     switch( handlebars_value_get_type(value) ) {
         case HANDLEBARS_VALUE_TYPE_NULL:
-            buf = handlebars_talloc_asprintf_append_buffer(buf, "NULL");
+            buf = MC(handlebars_talloc_asprintf_append_buffer(buf, "NULL"));
             break;
         case HANDLEBARS_VALUE_TYPE_TRUE:
-            buf = handlebars_talloc_strndup_append_buffer(buf, HBS_STRL("boolean(true)"));
+            buf = MC(handlebars_talloc_strndup_append_buffer(buf, HBS_STRL("boolean(true)")));
             break;
         case HANDLEBARS_VALUE_TYPE_FALSE:
-            buf = handlebars_talloc_strndup_append_buffer(buf, HBS_STRL("boolean(false)"));
+            buf = MC(handlebars_talloc_strndup_append_buffer(buf, HBS_STRL("boolean(false)")));
             break;
         case HANDLEBARS_VALUE_TYPE_FLOAT:
-            buf = handlebars_talloc_asprintf_append_buffer(buf, "float(%g)", value->v.dval);
+            buf = MC(handlebars_talloc_asprintf_append_buffer(buf, "float(%g)", value->v.dval));
             break;
         case HANDLEBARS_VALUE_TYPE_INTEGER:
-            buf = handlebars_talloc_asprintf_append_buffer(buf, "integer(%ld)", value->v.lval);
+            buf = MC(handlebars_talloc_asprintf_append_buffer(buf, "integer(%ld)", value->v.lval));
             break;
         case HANDLEBARS_VALUE_TYPE_STRING:
-            buf = handlebars_talloc_asprintf_append_buffer(buf, "string(%.*s)", (int) hbs_str_len(value->v.string), hbs_str_val(value->v.string));
+            buf = MC(handlebars_talloc_asprintf_append_buffer(buf, "string(%.*s)", (int) hbs_str_len(value->v.string), hbs_str_val(value->v.string)));
             break;
         case HANDLEBARS_VALUE_TYPE_ARRAY:
-            buf = handlebars_talloc_asprintf_append_buffer(buf, "[%s", handlebars_value_count(value) ? "\n" : "");
+            buf = MC(handlebars_talloc_asprintf_append_buffer(buf, "[%s", handlebars_value_count(value) ? "\n" : ""));
             HANDLEBARS_VALUE_FOREACH_IDX(value, index, child) {
                 char * tmp = handlebars_value_dump(child, context, depth + 1);
-                buf = handlebars_talloc_asprintf_append_buffer(buf, "%s%zd => %s\n", indent2, index, tmp);
+                buf = MC(handlebars_talloc_asprintf_append_buffer(buf, "%s%zd => %s\n", indent2, index, tmp));
                 handlebars_talloc_free(tmp);
             } HANDLEBARS_VALUE_FOREACH_END();
-            buf = handlebars_talloc_asprintf_append_buffer(buf, "%s]", handlebars_value_count(value) ? indent : "");
+            buf = MC(handlebars_talloc_asprintf_append_buffer(buf, "%s]", handlebars_value_count(value) ? indent : ""));
             break;
         case HANDLEBARS_VALUE_TYPE_MAP:
-            buf = handlebars_talloc_asprintf_append_buffer(buf, "{%s", handlebars_value_count(value) ? "\n" : "");
+            buf = MC(handlebars_talloc_asprintf_append_buffer(buf, "{%s", handlebars_value_count(value) ? "\n" : ""));
             HANDLEBARS_VALUE_FOREACH_KV(value, key, child) {
                 char * tmp = handlebars_value_dump(child, context, depth + 1);
-                buf = handlebars_talloc_asprintf_append_buffer(buf, "%s%.*s => %s\n", indent2, (int) hbs_str_len(key), hbs_str_val(key), tmp);
+                buf = MC(handlebars_talloc_asprintf_append_buffer(buf, "%s%.*s => %s\n", indent2, (int) hbs_str_len(key), hbs_str_val(key), tmp));
                 handlebars_talloc_free(tmp);
             } HANDLEBARS_VALUE_FOREACH_END();
-            buf = handlebars_talloc_asprintf_append_buffer(buf, "%s}", handlebars_value_count(value) ? indent : "");
+            buf = MC(handlebars_talloc_asprintf_append_buffer(buf, "%s}", handlebars_value_count(value) ? indent : ""));
             break;
         case HANDLEBARS_VALUE_TYPE_HELPER:
-            buf = handlebars_talloc_asprintf_append_buffer(buf, "(function, real type %d)", value->type);
+            buf = MC(handlebars_talloc_asprintf_append_buffer(buf, "(function, real type %d)", value->type));
             break;
         default:
-            buf = handlebars_talloc_asprintf_append_buffer(buf, "unknown type %d", value->type);
+            buf = MC(handlebars_talloc_asprintf_append_buffer(buf, "unknown type %d", value->type));
             break;
     }
 
-- 
2.43.0


From e281f3943d75e2c870a642339e71e06d70a9a243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:10 +0000
Subject: [PATCH 030/102] fix: ids and string params of a partial without an
 explicit context

---
 src/handlebars_ast.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_ast.c b/src/handlebars_ast.c
index 87ca15a..b5653b6 100644
--- a/src/handlebars_ast.c
+++ b/src/handlebars_ast.c
@@ -105,10 +105,15 @@ struct handlebars_string * handlebars_ast_node_get_string_mode_value(
             string = node->node.nul.value;
             break;
         default:
-            string = handlebars_string_ctor(context, HBS_STRL(""));
+            string = NULL;
             break;
     }
 
+    // Nodes that do not come from the source (e.g. the implicit context of a partial) have no text
+    if( string == NULL ) {
+        string = handlebars_string_ctor(context, HBS_STRL(""));
+    }
+
     return string;
 }
 
-- 
2.43.0


From b159d87bac19967088248df4b0c0e23c8fe3202c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:10 +0000
Subject: [PATCH 031/102] fix: alternate decorators are compiled with the state
 of the enclosing compiler

---
 src/handlebars_compiler.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index f2c8e3b..adbd1b1 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -986,6 +986,10 @@ static inline void handlebars_compiler_accept_decorator(
 
         origcompiler = compiler;
         subcompiler = talloc_steal(compiler, handlebars_compiler_ctor(CONTEXT));
+        subcompiler->known_helpers = compiler->known_helpers;
+        subcompiler->flags = compiler->flags;
+        subcompiler->bps = compiler->bps;
+        subcompiler->sns = compiler->sns;
         program->decorators[program->decorators_length++] = talloc_steal(program, subcompiler->program);
         compiler = subcompiler;
 
-- 
2.43.0


From d01bdffc3f504d806d9fb14ae7d7b47dc5e7d008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:10 +0000
Subject: [PATCH 032/102] fix: strnstr with a needle longer than the haystack

---
 src/handlebars_string.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 431f528..c2a4c41 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -380,12 +380,14 @@ bool hbs_str_eq_strl(
 
 const char * handlebars_strnstr(const char * haystack, size_t haystack_len, const char * needle, size_t needle_len)
 {
-    const char * end = haystack + haystack_len - needle_len;
+    const char * end;
 
-    if( !needle_len || !haystack_len ) {
+    if( !needle_len || !haystack_len || needle_len > haystack_len ) {
         return NULL;
     }
 
+    end = haystack + haystack_len - needle_len;
+
     for( ; haystack <= end; haystack++ ) {
         if( haystack[0] == needle[0] && strncmp(haystack, needle, needle_len) == 0 ) {
             return haystack;
-- 
2.43.0


From 21bce3ff56099defa412831545396346d61aea3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:10 +0000
Subject: [PATCH 033/102] fix: rewriting a shared string in place leaves the
 other holders alone

---
 src/handlebars_string.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index c2a4c41..af62e21 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -402,13 +402,14 @@ struct handlebars_string * handlebars_str_reduce(
     const char * search, size_t search_len,
     const char * replacement, size_t replacement_len
 ) {
-    char * tok = string->val;
+    char * tok;
 
     if( replacement_len > search_len || search_len <= 0 || string->len <= 0 ) {
         return string;
     }
 
     string = separate_string(string);
+    tok = string->val;
 
     while( NULL != (tok = (char *) handlebars_strnstr(tok, string->len - (tok - string->val), search, search_len)) ) {
         memmove(tok, replacement, replacement_len);
@@ -517,14 +518,17 @@ struct handlebars_string * handlebars_string_addcslashes(struct handlebars_conte
 
 struct handlebars_string * handlebars_string_stripcslashes(struct handlebars_string * string)
 {
-    char * source = string->val;
-    char * target = string->val;
-    char * end = string->val + string->len;
+    char * source;
+    char * target;
+    char * end;
     size_t nlen = string->len;
     size_t i;
     char numtmp[4];
 
     string = separate_string(string);
+    source = string->val;
+    target = string->val;
+    end = string->val + string->len;
 
     for( ; source < end; source++ ) {
         if( *source == '\\' && source + 1 < end ) {
-- 
2.43.0


From 2df40ff7df0a7c8ce4d9e1f5bafbef73ae1b4b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:10 +0000
Subject: [PATCH 034/102] fix: truncating a string past its end yields an empty
 string

---
 src/handlebars_string.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index af62e21..6c8011d 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -356,6 +356,9 @@ struct handlebars_string * handlebars_string_truncate(
     }
 
     // Truncate left
+    if (start > string->len) {
+        start = string->len;
+    }
     if (start > 0) {
         memmove(string->val, string->val + start, string->len - start);
         string->len -= start;
-- 
2.43.0


From 735ad4285badd687ec51eaa662a50155f356489a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:10 +0000
Subject: [PATCH 035/102] fix: trimming a string resets its hash

---
 src/handlebars_string.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 6c8011d..bdcbb81 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -841,6 +841,7 @@ struct handlebars_string * handlebars_string_ltrim(struct handlebars_string * st
 
     if( ptr > string->val ) {
         memmove(string->val, ptr, string->len + 1);
+        string->hash = 0;
     }
 
     return string;
@@ -870,6 +871,7 @@ struct handlebars_string * handlebars_string_rtrim(struct handlebars_string * st
     while( original > string->val && flags[(unsigned char) *--original] ) {
         --string->len;
         *original = '\0';
+        string->hash = 0;
     }
 
     return string;
-- 
2.43.0


From 359d5ab80602a73b24d10fe61a539bdc9090f970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:10 +0000
Subject: [PATCH 036/102] fix: indenting an empty string does not read before
 its start

---
 src/handlebars_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index bdcbb81..30a273d 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -784,7 +784,7 @@ struct handlebars_string * handlebars_string_indent_append(
 ) {
     const char * str = input_string->val;
     size_t str_len = input_string->len;
-    bool endsInLine = (str[str_len - 1] == '\n');
+    bool endsInLine = (str_len > 0 && str[str_len - 1] == '\n');
     size_t i;
     char tmp[2] = "\0";
 
-- 
2.43.0


From 69f5c49cd6b8f22d9cc6cff4e2a9c1cd6a61b95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:47 +0000
Subject: [PATCH 037/102] fix: appending a string to itself

---
 src/handlebars_string.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 30a273d..06b6a97 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -315,6 +315,14 @@ struct handlebars_string * handlebars_string_append_str(
     struct handlebars_string * string,
     const struct handlebars_string * string2
 ) {
+    // Appending a string to itself: its storage may move
+    if (string == string2) {
+        size_t len = string->len;
+        string = separate_string(string);
+        string = handlebars_string_extend(context, string, len * 2);
+        return handlebars_string_append_unsafe(string, string->val, len);
+    }
+
     return handlebars_string_append(context, string, string2->val, string2->len);
 }
 
-- 
2.43.0


From e59a1e651036a8a6c80218363d57de0e64347753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:47 +0000
Subject: [PATCH 038/102] fix: separating a shared string that is not a direct
 child of a context

---
 src/handlebars_string.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 06b6a97..645324b 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -193,14 +193,31 @@ void handlebars_string_delref_ex(struct handlebars_string * string, const char *
 #define handlebars_string_delref(string) handlebars_string_delref_ex(string, #string, HBS_LOC)
 #endif
 
+#ifndef HANDLEBARS_NO_REFCOUNT
+// Find the context that owns the given pointer, which is not necessarily its direct parent
+static struct handlebars_context * find_owner(void * ptr)
+{
+    while ((ptr = talloc_parent(ptr)) != NULL) {
+        if (talloc_check_name(ptr, "struct handlebars_context")
+                || talloc_check_name(ptr, "struct handlebars_parser")
+                || talloc_check_name(ptr, "struct handlebars_compiler")
+                || talloc_check_name(ptr, "struct handlebars_vm")
+                || talloc_check_name(ptr, "struct handlebars_cache")) {
+            break;
+        }
+    }
+    return (struct handlebars_context *) ptr;
+}
+#endif
+
 static inline struct handlebars_string * separate_string(struct handlebars_string * string)
 {
 #ifndef HANDLEBARS_NO_REFCOUNT
     if (handlebars_rc_refcount(&string->rc) > 1) {
         struct handlebars_string * prev_string = string;
-        void * parent = talloc_parent(string);
-        assert(parent != NULL);
-        string = handlebars_string_copy_ctor(HBSCTX(parent), string);
+        struct handlebars_context * owner = find_owner(string);
+        assert(owner != NULL);
+        string = talloc_steal(talloc_parent(prev_string), handlebars_string_copy_ctor(owner, prev_string));
         if (handlebars_rc_refcount(&prev_string->rc) >= 1) { // ugh
             handlebars_string_addref(string);
         }
-- 
2.43.0


From fa1e3908b597b782b59ae3ae610a93b1110f9b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:54 +0000
Subject: [PATCH 039/102] fix: whitespace control around an empty else block

---
 src/handlebars_whitespace.c | 8 ++++++++
 src/handlebars_whitespace.h | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_whitespace.c b/src/handlebars_whitespace.c
index e423a79..01ca646 100644
--- a/src/handlebars_whitespace.c
+++ b/src/handlebars_whitespace.c
@@ -113,6 +113,10 @@ bool handlebars_whitespace_omit_left(struct handlebars_ast_list * statements,
     struct handlebars_ast_list_item * item;
     size_t original_length;
 
+    if( !statements ) {
+        return 0;
+    }
+
     if( statement == NULL ) {
         current = statements->last ? statements->last->data : NULL;
     } else {
@@ -150,6 +154,10 @@ bool handlebars_whitespace_omit_right(struct handlebars_ast_list * statements,
     struct handlebars_ast_list_item * item;
     size_t original_length;
 
+    if( !statements ) {
+        return 0;
+    }
+
     if( statement == NULL ) {
         current = statements->first ? statements->first->data : NULL;
     } else {
diff --git a/src/handlebars_whitespace.h b/src/handlebars_whitespace.h
index 6df8627..20821ec 100644
--- a/src/handlebars_whitespace.h
+++ b/src/handlebars_whitespace.h
@@ -49,13 +49,13 @@ bool handlebars_whitespace_omit_left(
     struct handlebars_ast_list * statements,
     struct handlebars_ast_node * statement,
     bool multiple
-) HBS_LOCAL HBS_ATTR_NONNULL(1);
+) HBS_LOCAL;
 
 bool handlebars_whitespace_omit_right(
     struct handlebars_ast_list * statements,
     struct handlebars_ast_node * statement,
     bool multiple
-) HBS_LOCAL HBS_ATTR_NONNULL(1);
+) HBS_LOCAL;
 
 void handlebars_whitespace_accept(
     struct handlebars_parser * parser,
-- 
2.43.0


From 1eace6e05b1f97b61e5b7168fa8130544cab9b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:56 +0000
Subject: [PATCH 040/102] fix: knownHelpersOnly with a path that has no parts

---
 src/handlebars_compiler.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index adbd1b1..1bbf34e 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -1119,6 +1119,10 @@ static inline void handlebars_compiler_accept_sexpr_helper(
         handlebars_operand_set_stringval(CONTEXT, opcode, &opcode->op2, name);
         __PUSH(opcode);
     } else if( compiler->flags & handlebars_compiler_flag_known_helpers_only ) {
+        if( name == NULL ) {
+            // The path has no parts (e.g. `..`)
+            name = handlebars_ast_node_get_string_mode_value(CONTEXT, path);
+        }
         handlebars_throw_ex(
             CONTEXT,
             HANDLEBARS_UNKNOWN_HELPER,
-- 
2.43.0


From 9d49dff19a2dccbacea6a0315479c82a7b4f430a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:54 +0000
Subject: [PATCH 041/102] fix: a delimiter change without a closing delimiter
 is an error

---
 src/handlebars_delimiters.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_delimiters.c b/src/handlebars_delimiters.c
index c7340fa..4a26e6a 100644
--- a/src/handlebars_delimiters.c
+++ b/src/handlebars_delimiters.c
@@ -170,10 +170,15 @@ struct handlebars_string * handlebars_preprocess_delimiters(
 
                 // Scan backwards while whitespace
                 pce = p - 1;
-                while( *pce == ' ' ) {
+                while( pce >= pc && *pce == ' ' ) {
                     pce--;
                 }
 
+                // Not found
+                if( pce < pc ) {
+                    handlebars_throw(ctx, HANDLEBARS_ERROR, "Delimiter change must contain a closing delimiter");
+                }
+
                 // Save new close tag
                 new_close = handlebars_string_ctor(ctx, pc, pce - pc + 1);
 
-- 
2.43.0


From 55c8fab2af03ea43b6758aab62bfaaf68eba25e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:54 +0000
Subject: [PATCH 042/102] fix: a backslash at the end of a template is not
 followed by a NUL byte

---
 src/handlebars_delimiters.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/handlebars_delimiters.c b/src/handlebars_delimiters.c
index 4a26e6a..ea1cd10 100644
--- a/src/handlebars_delimiters.c
+++ b/src/handlebars_delimiters.c
@@ -90,6 +90,9 @@ struct handlebars_string * handlebars_preprocess_delimiters(
                 // If current character is a slash, skip one character
                 if( *p == '\\' ) {
                     append(p, 1);
+                    if( i <= 1 ) {
+                        break;
+                    }
                     move_forward(1);
                     append(p, 1);
                     continue;
-- 
2.43.0


From 623536a17489897e1eef67c3fcae4fe82a179728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:07 +0000
Subject: [PATCH 043/102] fix: growing, setting and popping of shared, floating
 and protected stacks

Growing a floating stack took a reference nobody released, the value being
stored could be freed with the previous stack, a failing set on a shared stack
dropped the caller's reference, growing forgot the protected segment, the last
protected element could be popped and a stack could be stored in itself.
---
 src/handlebars_stack.c | 79 ++++++++++++++++++++++++++----------------
 1 file changed, 50 insertions(+), 29 deletions(-)

diff --git a/src/handlebars_stack.c b/src/handlebars_stack.c
index 5d062e2..2e4796e 100644
--- a/src/handlebars_stack.c
+++ b/src/handlebars_stack.c
@@ -89,23 +89,36 @@ void handlebars_stack_delref(struct handlebars_stack * stack)
 #endif
 }
 
-static inline struct handlebars_stack * stack_separate(struct handlebars_stack * stack) {
+// Make a private copy of the stack for a caller that will release its reference to the original
+static struct handlebars_stack * stack_replace(struct handlebars_stack * prev_stack, size_t capacity) {
+    // Cannot resize if this stack was stack allocated
+    if (!(prev_stack->flags & HANDLEBARS_STACK_TALLOCATED)) {
+        handlebars_throw(prev_stack->ctx, HANDLEBARS_STACK_OVERFLOW, "Stack overflow");
+    }
+    struct handlebars_stack * stack = handlebars_stack_copy_ctor(prev_stack, capacity);
+    stack->protect = prev_stack->protect;
 #ifndef HANDLEBARS_NO_REFCOUNT
-    if (handlebars_rc_refcount(&stack->rc) > 1) {
-        // Cannot resize if this stack was stack allocated
-        if (!(stack->flags & HANDLEBARS_STACK_TALLOCATED)) {
-            handlebars_throw(stack->ctx, HANDLEBARS_STACK_OVERFLOW, "Stack overflow");
-        }
-        struct handlebars_stack * prev_stack = stack;
-        stack = handlebars_stack_copy_ctor(stack, prev_stack->capacity);
-        handlebars_stack_delref(prev_stack);
+    if (handlebars_rc_refcount(&prev_stack->rc) >= 1) {
         handlebars_stack_addref(stack);
     }
 #endif
-
     return stack;
 }
 
+static inline bool stack_is_shared(struct handlebars_stack * stack) {
+#ifndef HANDLEBARS_NO_REFCOUNT
+    return handlebars_rc_refcount(&stack->rc) > 1;
+#else
+    return false;
+#endif
+}
+
+// A stack must not become an element of itself, so it is separated from the value first
+static inline bool stack_holds_itself(struct handlebars_stack * stack, struct handlebars_value * value)
+{
+    return value->type == HANDLEBARS_VALUE_TYPE_ARRAY && value->v.stack == stack;
+}
+
 // }}} Reference Counting
 
 // {{{ Constructors and Destructors
@@ -184,28 +197,27 @@ struct handlebars_stack * handlebars_stack_push(struct handlebars_stack * stack,
     assert(stack != NULL);
     assert(value != NULL);
 
-    if( stack->capacity > stack->i ) {
-        // Separate if refcount > 1
-        stack = stack_separate(stack);
-    } else {
-        // Resize array if necessary
-
-        // Cannot resize if this stack was stack allocated
-        if (!(stack->flags & HANDLEBARS_STACK_TALLOCATED)) {
-            handlebars_throw(stack->ctx, HANDLEBARS_STACK_OVERFLOW, "Stack overflow");
-        }
+    struct handlebars_stack * prev_stack = NULL;
 
-        size_t capacity = (stack->capacity | 3) * 3 / 2;
-        struct handlebars_stack * prev_stack = stack;
-        stack = handlebars_stack_copy_ctor(prev_stack, capacity);
-        handlebars_stack_delref(prev_stack);
-        handlebars_stack_addref(stack);
+    if( stack->capacity <= stack->i ) {
+        // Resize array if necessary
+        prev_stack = stack;
+        stack = stack_replace(prev_stack, (prev_stack->capacity | 3) * 3 / 2);
+    } else if (stack_is_shared(stack) || stack_holds_itself(stack, value)) {
+        // Separate if refcount > 1
+        prev_stack = stack;
+        stack = stack_replace(prev_stack, prev_stack->capacity);
     }
 
     handlebars_value_init(&stack->v[stack->i]);
     handlebars_value_value(&stack->v[stack->i], value);
     stack->i++;
 
+    // The previous stack may own the value
+    if (prev_stack) {
+        handlebars_stack_delref(prev_stack);
+    }
+
     return stack;
 }
 
@@ -222,7 +234,7 @@ struct handlebars_value * handlebars_stack_pop(struct handlebars_stack * stack,
     }
 #endif
 
-    if (stack->i < stack->protect) {
+    if (stack->i <= stack->protect) {
         handlebars_throw(stack->ctx, HANDLEBARS_STACK_OVERFLOW, "Attempting to pop protected stack segment i=%zu protect=%zu", stack->i, stack->protect);
     }
 
@@ -260,9 +272,6 @@ struct handlebars_stack * handlebars_stack_set(struct handlebars_stack * stack,
         return handlebars_stack_push(stack, value);
     }
 
-    // Separate if refcount > 1
-    stack = stack_separate(stack);
-
     // Out-of-bounds
     if( offset >= stack->i ) {
         handlebars_throw(stack->ctx, HANDLEBARS_STACK_OVERFLOW, "Out-of-bounds %zu/%zu", offset, stack->i);
@@ -278,8 +287,20 @@ struct handlebars_stack * handlebars_stack_set(struct handlebars_stack * stack,
         return stack;
     }
 
+    // Separate if refcount > 1
+    struct handlebars_stack * prev_stack = NULL;
+    if (stack_is_shared(stack) || stack_holds_itself(stack, value)) {
+        prev_stack = stack;
+        stack = stack_replace(prev_stack, prev_stack->capacity);
+    }
+
     handlebars_value_value(&stack->v[offset], value);
 
+    // The previous stack may own the value
+    if (prev_stack) {
+        handlebars_stack_delref(prev_stack);
+    }
+
     return stack;
 }
 
-- 
2.43.0


From 43b3744f3ea73628b05030a59b8652e1db50cf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:07 +0000
Subject: [PATCH 044/102] fix: map update and add with a value stored in the
 same map

The value may live in the map that is released by the rehash, and a map could
be made an entry of itself.
---
 src/handlebars_map.c | 82 +++++++++++++++++++++++++++++---------------
 1 file changed, 54 insertions(+), 28 deletions(-)

diff --git a/src/handlebars_map.c b/src/handlebars_map.c
index eb319dd..0a4bb25 100644
--- a/src/handlebars_map.c
+++ b/src/handlebars_map.c
@@ -399,6 +399,40 @@ void handlebars_map_dtor(struct handlebars_map * map)
     handlebars_talloc_free(map);
 }
 
+// A map must not become an entry of itself, so it is separated from the value first
+static inline bool map_holds_itself(struct handlebars_map * map, struct handlebars_value * value)
+{
+    return value->type == HANDLEBARS_VALUE_TYPE_MAP && value->v.map == map;
+}
+
+// Rehash, but leave releasing the previous map to the caller: it may own the key or the value being added
+static struct handlebars_map * map_rehash_keep(struct handlebars_map * map, bool force, struct handlebars_map ** prev)
+{
+    if (map->is_in_iteration) { // this go go really wrong
+        return map;
+    }
+
+#ifndef HANDLEBARS_NO_REFCOUNT
+    if (handlebars_rc_refcount(&map->rc) > 1) {
+        force = true;
+    }
+#endif
+
+    if (force || map->vec_offset == map->vec_capacity || handlebars_map_load_factor(map) > HANDLEBARS_MAP_MAX_LOAD_FACTOR) {
+        size_t vec_capacity = 1 << map_choose_vec_capacity_log2(map->i + 1);
+        struct handlebars_map * prev_map = map;
+        map = handlebars_map_copy_ctor(prev_map, vec_capacity);
+#ifndef HANDLEBARS_NO_REFCOUNT
+        if (handlebars_rc_refcount(&prev_map->rc) >= 1) { // ugh
+            handlebars_map_addref(map);
+        }
+#endif
+        *prev = prev_map;
+    }
+
+    return map;
+}
+
 struct handlebars_map * handlebars_map_add(struct handlebars_map * map, struct handlebars_string * key, struct handlebars_value * value)
 {
     // Check before rehashing: the caller still refers to the original map if we throw
@@ -407,7 +441,8 @@ struct handlebars_map * handlebars_map_add(struct handlebars_map * map, struct h
     }
 
     // Rehash
-    map = handlebars_map_rehash(map, false);
+    struct handlebars_map * prev_map = NULL;
+    map = map_rehash_keep(map, map_holds_itself(map, value), &prev_map);
 
     // Add
     struct ht_find_result o = map_find_entry(map, key);
@@ -418,6 +453,10 @@ struct handlebars_map * handlebars_map_add(struct handlebars_map * map, struct h
 
     map_add_at_table_offset(map, key, value, o.empty_offset);
 
+    if (prev_map) {
+        handlebars_map_delref(prev_map);
+    }
+
     return map;
 }
 
@@ -462,22 +501,26 @@ struct handlebars_value * handlebars_map_find(struct handlebars_map * map, struc
 struct handlebars_map * handlebars_map_update(struct handlebars_map * map, struct handlebars_string * key, struct handlebars_value * value)
 {
     // Rehash
-    map = handlebars_map_rehash(map, false);
+    struct handlebars_map * prev_map = NULL;
+    map = map_rehash_keep(map, map_holds_itself(map, value), &prev_map);
 
     // Update
     struct ht_find_result o = map_find_entry(map, key);
     struct handlebars_map_entry * entry = o.entry;
     if (entry) {
         handlebars_value_value(&entry->value, value);
-        return map;
-    }
+    } else {
+        if (!o.empty_found) {
+            // This should never happen
+            handlebars_throw(map->ctx, HANDLEBARS_ERROR, "Failed to update to hash table");
+        }
 
-    if (!o.empty_found) {
-        // This should never happen
-        handlebars_throw(map->ctx, HANDLEBARS_ERROR, "Failed to update to hash table");
+        map_add_at_table_offset(map, key, value, o.empty_offset);
     }
 
-    map_add_at_table_offset(map, key, value, o.empty_offset);
+    if (prev_map) {
+        handlebars_map_delref(prev_map);
+    }
 
     return map;
 }
@@ -518,28 +561,11 @@ bool handlebars_map_is_sparse(struct handlebars_map * map)
 
 struct handlebars_map * handlebars_map_rehash(struct handlebars_map * map, bool force)
 {
-    if (map->is_in_iteration) { // this go go really wrong
-        return map;
-    }
-
-#ifndef HANDLEBARS_NO_REFCOUNT
-    if (handlebars_rc_refcount(&map->rc) > 1) {
-        force = true;
-    }
-#endif
-
-    if (force || map->vec_offset == map->vec_capacity || handlebars_map_load_factor(map) > HANDLEBARS_MAP_MAX_LOAD_FACTOR) {
-        size_t vec_capacity = 1 << map_choose_vec_capacity_log2(map->i + 1);
-        struct handlebars_map * prev_map = map;
-        map = handlebars_map_copy_ctor(prev_map, vec_capacity);
-#ifndef HANDLEBARS_NO_REFCOUNT
-        if (handlebars_rc_refcount(&prev_map->rc) >= 1) { // ugh
-            handlebars_map_addref(map);
-        }
-#endif
+    struct handlebars_map * prev_map = NULL;
+    map = map_rehash_keep(map, force, &prev_map);
+    if (prev_map) {
         handlebars_map_delref(prev_map);
     }
-
     return map;
 }
 
-- 
2.43.0


From 5b8f7e442e8af21f1dff63c57503b30857cac892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:30 +0000
Subject: [PATCH 045/102] fix: appending to a shared string keeps its
 references when it fails

Separating and growing were two allocations: when the second one failed, the
caller's reference to the original was already gone. Indenting could fail after
its destination had moved.
---
 src/handlebars_string.c | 61 +++++++++++++++++++++++++++++++----------
 1 file changed, 47 insertions(+), 14 deletions(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 645324b..9714914 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -290,21 +290,51 @@ struct handlebars_string * handlebars_string_copy_ctor(
     return st;
 }
 
-struct handlebars_string * handlebars_string_extend(
+// Make sure the string is not shared and has room for len characters. When this fails, the string and its references
+// are left as they were.
+static struct handlebars_string * string_reserve(
     struct handlebars_context * context,
     struct handlebars_string * string,
     size_t len
 ) {
+    struct handlebars_string * prev_string = string;
+
+#ifndef HANDLEBARS_NO_REFCOUNT
+    if (handlebars_rc_refcount(&string->rc) > 1) {
+        if (len < string->len) {
+            len = string->len;
+        }
+        string = (struct handlebars_string *) handlebars_talloc_size(talloc_parent(prev_string), HBS_STR_SIZE(len));
+        HANDLEBARS_MEMCHECK(string, context);
+        talloc_set_type(string, struct handlebars_string);
+        memcpy(string, prev_string, HBS_STR_SIZE(prev_string->len));
+        handlebars_rc_init(&string->rc);
+        handlebars_string_addref(string);
+        handlebars_string_delref(prev_string);
+        return string;
+    }
+#endif
+
     size_t size = HBS_STR_SIZE(len);
-    if( size > talloc_get_size(string) ) {
-        string = separate_string(string);
-        string = (struct handlebars_string *) handlebars_talloc_realloc_size(context, string, size);
+    if (size > talloc_get_size(string)) {
+        string = (struct handlebars_string *) handlebars_talloc_realloc_size(context, prev_string, size);
         HANDLEBARS_MEMCHECK(string, context);
         talloc_set_type(string, struct handlebars_string);
     }
     return string;
 }
 
+struct handlebars_string * handlebars_string_extend(
+    struct handlebars_context * context,
+    struct handlebars_string * string,
+    size_t len
+) {
+    if (HBS_STR_SIZE(len) > talloc_get_size(string)) {
+        string = string_reserve(context, string, len);
+    }
+    return string;
+}
+
 struct handlebars_string * handlebars_string_append_unsafe(
     struct handlebars_string * string,
     const char * str, size_t len
@@ -321,8 +351,7 @@ struct handlebars_string * handlebars_string_append(
     struct handlebars_string * string,
     const char * str, size_t len
 ) {
-    string = separate_string(string);
-    string = handlebars_string_extend(context, string, string->len + len);
+    string = string_reserve(context, string, string->len + len);
     string = handlebars_string_append_unsafe(string, str, len);
     return string;
 }
@@ -335,8 +364,7 @@ struct handlebars_string * handlebars_string_append_str(
     // Appending a string to itself: its storage may move
     if (string == string2) {
         size_t len = string->len;
-        string = separate_string(string);
-        string = handlebars_string_extend(context, string, len * 2);
+        string = string_reserve(context, string, len * 2);
         return handlebars_string_append_unsafe(string, string->val, len);
     }
 
@@ -669,8 +697,6 @@ struct handlebars_string * handlebars_string_vasprintf_append(
     size_t len;
     size_t slen = string->len;
 
-    string = separate_string(string);
-
     // Calculate size
     va_copy(ap2, ap);
     len = vsnprintf(NULL, 0, fmt, ap2);
@@ -682,7 +708,7 @@ struct handlebars_string * handlebars_string_vasprintf_append(
     }
 
     // Resize
-    string = handlebars_string_extend(context, string, slen + len);
+    string = string_reserve(context, string, slen + len);
 
     // Print
     va_copy(ap2, ap);
@@ -722,8 +748,6 @@ struct handlebars_string * handlebars_string_htmlspecialchars_append(
         return string;
     }
 
-    string = separate_string(string);
-
     // Calculate new size
     for( p = str + len - 1; p >= str; p-- ) {
         pair = &htmlspecialchars[(unsigned char) *p];
@@ -738,7 +762,7 @@ struct handlebars_string * handlebars_string_htmlspecialchars_append(
     }
 
     // Realloc original buffer
-    string = handlebars_string_extend(context, string, string->len + new_len);
+    string = string_reserve(context, string, string->len + new_len);
 
     // Copy
     for( p = str, end = str + len; p < end; p++ ) {
@@ -817,6 +841,15 @@ struct handlebars_string * handlebars_string_indent_append(
         str_len--;
     }
 
+    // Allocate
+    size_t new_len = append_to_string->len + indent_str->len + input_string->len;
+    for( i = 0; i < str_len; i++ ) {
+        if( str[i] == '\n' ) {
+            new_len += indent_str->len;
+        }
+    }
+    append_to_string = string_reserve(context, append_to_string, new_len);
+
     append_to_string = handlebars_string_append_str(context, append_to_string, indent_str);
 
     for( i = 0; i < str_len; i++ ) {
-- 
2.43.0


From abdebfe72b60cf6e919f8ac109cb9d8574c74664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:30 +0000
Subject: [PATCH 046/102] fix: string comparison and search stop at NUL bytes

---
 src/handlebars_string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 9714914..0a905fe 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -431,7 +431,7 @@ bool hbs_str_eq_strl(
     if (hbs_str_len(string1) != len2) {
         return false;
     }
-    return 0 == strncmp(hbs_str_val(string1), str2, len2);
+    return 0 == memcmp(hbs_str_val(string1), str2, len2);
 }
 
 const char * handlebars_strnstr(const char * haystack, size_t haystack_len, const char * needle, size_t needle_len)
@@ -445,7 +445,7 @@ const char * handlebars_strnstr(const char * haystack, size_t haystack_len, cons
     end = haystack + haystack_len - needle_len;
 
     for( ; haystack <= end; haystack++ ) {
-        if( haystack[0] == needle[0] && strncmp(haystack, needle, needle_len) == 0 ) {
+        if( haystack[0] == needle[0] && memcmp(haystack, needle, needle_len) == 0 ) {
             return haystack;
         }
     }
-- 
2.43.0


From baea889eaa2486ceebf67b9bb2fd963b4d69f2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:08 +0000
Subject: [PATCH 047/102] fix: releasing a compacted string aborts

---
 src/handlebars_string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 0a905fe..a372d0c 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -379,6 +379,7 @@ struct handlebars_string * handlebars_string_compact(struct handlebars_string *
         struct handlebars_string * new_string = (struct handlebars_string *) handlebars_talloc_realloc_size(NULL, string, size);
         if (new_string != NULL) {
             string = new_string;
+            talloc_set_type(string, struct handlebars_string);
         }
     }
     return string;
-- 
2.43.0


From 2332d65d9f22c09e7f9b4428b23c5254988377bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:16 +0000
Subject: [PATCH 048/102] fix: converting an array or map converts its
 elements, not copies of them

---
 src/handlebars_value.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index bccbb0d..7192937 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -311,9 +311,26 @@ void handlebars_value_convert_ex(struct handlebars_value * value, bool recurse)
             }
             break;
         case HANDLEBARS_VALUE_TYPE_MAP:
+            if (!recurse) {
+                break;
+            }
+            // The iterator holds a reference to the original map
+            HANDLEBARS_VALUE_FOREACH_KV(value, key, child) {
+                if (!handlebars_value_is_scalar(child)) {
+                    handlebars_value_convert_ex(child, recurse);
+                    handlebars_value_map_update(value, key, child);
+                }
+            } HANDLEBARS_VALUE_FOREACH_END();
+            break;
         case HANDLEBARS_VALUE_TYPE_ARRAY:
-            HANDLEBARS_VALUE_FOREACH(value, child) {
-                handlebars_value_convert_ex(child, recurse);
+            if (!recurse) {
+                break;
+            }
+            HANDLEBARS_VALUE_FOREACH_IDX(value, index, child) {
+                if (!handlebars_value_is_scalar(child)) {
+                    handlebars_value_convert_ex(child, recurse);
+                    handlebars_value_array_set(value, index, child);
+                }
             } HANDLEBARS_VALUE_FOREACH_END();
             break;
         default:
-- 
2.43.0


From 2a0665bd39fa7a68f89a134eb65db5945e1c96eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:16 +0000
Subject: [PATCH 049/102] fix: dumping a deeply nested value aborts

---
 src/handlebars_value.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index 7192937..f1d479c 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -749,13 +749,12 @@ char * handlebars_value_dump(struct handlebars_value * value, struct handlebars_
     char indent2[0x80];
     HANDLEBARS_MEMCHECK(buf, context);
 
-    assert((depth + 1) * 4 < 0x80);
-
-    size_t indent_len = (depth * 4) & 0x7F;
+    // Limit the indentation of deeply nested values
+    size_t indent_len = depth * 4 < sizeof(indent) ? depth * 4 : sizeof(indent) - 1;
     memset(indent, ' ', indent_len);
     indent[indent_len] = 0;
 
-    size_t indent2_len = ((depth + 1) * 4) & 0x7F;
+    size_t indent2_len = (depth + 1) * 4 < sizeof(indent2) ? (depth + 1) * 4 : sizeof(indent2) - 1;
     memset(indent2, ' ', indent2_len);
     indent2[indent2_len] = 0;
 
-- 
2.43.0


From 6241ed1a2dacf25468c608e2b00e3fd96d26136d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:39 +0000
Subject: [PATCH 050/102] fix: simple cache depends on the caller's keys, frees
 modules in use and leaks on reset

Keys are copied, modules found in the cache stay alive until they are
released, expired entries are not returned, and running out of memory
leaves the statistics and the map consistent.
---
 src/handlebars_cache_simple.c | 113 +++++++++++++++++++++++-----------
 1 file changed, 77 insertions(+), 36 deletions(-)

diff --git a/src/handlebars_cache_simple.c b/src/handlebars_cache_simple.c
index 838d1c9..52810ae 100644
--- a/src/handlebars_cache_simple.c
+++ b/src/handlebars_cache_simple.c
@@ -41,24 +41,43 @@
 struct handlebars_cache_simple {
     struct handlebars_map * map;
     struct handlebars_cache_stat stat;
+
+    //! Owns the modules that were removed while modules were in use
+    void * removed;
 };
 
-static inline bool should_gc(struct handlebars_cache * cache)
+static inline bool should_gc(struct handlebars_cache * cache, size_t size, size_t entries)
 {
-    struct handlebars_cache_simple * intern = (struct handlebars_cache_simple *) cache->internal;
-    struct handlebars_cache_stat * stat = &intern->stat;
     return (
-        (cache->max_size > 0 && stat->current_size > cache->max_size) ||
-        (cache->max_entries > 0 && stat->current_entries > cache->max_entries)
+        (cache->max_size > 0 && size > cache->max_size) ||
+        (cache->max_entries > 0 && entries > cache->max_entries)
     );
 }
 
-static inline bool should_gc_entry(struct handlebars_cache * cache, struct handlebars_module * module, time_t now)
+static inline bool is_expired(struct handlebars_cache * cache, struct handlebars_module * module, time_t now)
 {
-    if( cache->max_age >= 0 && difftime(now, module->ts) >= cache->max_age ) {
-        return true;
+    return cache->max_age >= 0 && difftime(now, module->ts) >= cache->max_age;
+}
+
+// Free a module that is no longer in the map, or have it freed once no module is in use
+static void discard_module(struct handlebars_cache_simple * intern, struct handlebars_module * module)
+{
+    if( intern->stat.refcount > 0 ) {
+        talloc_steal(intern->removed, module);
+    } else {
+        handlebars_talloc_free(module);
     }
-    return should_gc(cache);
+}
+
+static void remove_entry(struct handlebars_cache * cache, struct handlebars_string * key)
+{
+    struct handlebars_cache_simple * intern = (struct handlebars_cache_simple *) cache->internal;
+    struct handlebars_value * value = handlebars_map_find(intern->map, key);
+    struct handlebars_module * module = handlebars_value_get_ptr(value, struct handlebars_module);
+    intern->map = handlebars_map_remove(intern->map, key);
+    intern->stat.current_entries--;
+    intern->stat.current_size -= module->size;
+    discard_module(intern, module);
 }
 
 static int cache_compare(const struct handlebars_map_kv_pair * pair1, const struct handlebars_map_kv_pair * pair2)
@@ -83,60 +102,63 @@ static int cache_compare(const struct handlebars_map_kv_pair * pair1, const stru
 static int cache_gc(struct handlebars_cache * cache)
 {
     struct handlebars_cache_simple * intern = (struct handlebars_cache_simple *) cache->internal;
-    struct handlebars_map * map = intern->map;
-    struct handlebars_cache_stat * stat = &intern->stat;
-    int removed = 0;
+    struct handlebars_map * map;
+    size_t size = intern->stat.current_size;
+    size_t entries = intern->stat.current_entries;
     size_t i = 0;
     time_t now;
     time(&now);
 
     size_t remove_keys_i = 0;
-    struct handlebars_string ** remove_keys = handlebars_talloc_array(HBSCTX(cache), struct handlebars_string *, handlebars_map_count(map) + 1);
+    struct handlebars_string ** remove_keys = handlebars_talloc_array(HBSCTX(cache), struct handlebars_string *, handlebars_map_count(intern->map) + 1);
     HANDLEBARS_MEMCHECK(remove_keys, HBSCTX(cache));
 
-    intern->map = map = handlebars_map_sort(map, cache_compare);
+    intern->map = map = handlebars_map_sort(intern->map, cache_compare);
 
     handlebars_map_foreach(map, index, key, value) {
         struct handlebars_module * module = handlebars_value_get_ptr(value, struct handlebars_module);
-        if( should_gc_entry(cache, module, now) ) {
-            handlebars_string_addref(key);
+        if( is_expired(cache, module, now) || should_gc(cache, size, entries) ) {
             remove_keys[remove_keys_i++] = key;
-            stat->current_entries--;
-            stat->current_size -= module->size;
-            removed++;
+            entries--;
+            size -= module->size;
         } else {
             break;
         }
     } handlebars_map_foreach_end(map);
 
     for( i = 0; i < remove_keys_i; i++ ) {
-        struct handlebars_string * key = remove_keys[i];
-        map = handlebars_map_remove(map, key);
-        handlebars_string_delref(key);
+        remove_entry(cache, remove_keys[i]);
     }
 
-    map = handlebars_map_rehash(map, false);
-
-    intern->map = map;
-
     handlebars_talloc_free(remove_keys);
 
-    return removed;
+    intern->map = handlebars_map_rehash(intern->map, false);
+
+    return (int) remove_keys_i;
 }
 
 static struct handlebars_module * cache_find(struct handlebars_cache * cache, struct handlebars_string * tmpl)
 {
     struct handlebars_cache_simple * intern = (struct handlebars_cache_simple *) cache->internal;
-    struct handlebars_map * map = intern->map;
-    struct handlebars_value * value = handlebars_map_find(map, tmpl);
+    struct handlebars_value * value = handlebars_map_find(intern->map, tmpl);
     struct handlebars_module * module = NULL;
+    time_t now;
+    time(&now);
+
+    // Check if it's too old
+    if( value && is_expired(cache, handlebars_value_get_ptr(value, struct handlebars_module), now) ) {
+        remove_entry(cache, tmpl);
+        value = NULL;
+    }
+
     if( value ) {
         // module = (struct handlebars_module *) value->v.ptr;
         module = handlebars_value_get_ptr(value, struct handlebars_module);
         assert(handlebars_value_get_type(value) == HANDLEBARS_VALUE_TYPE_PTR);
         assert(talloc_get_type_abort(module, struct handlebars_module) != NULL);
-        time(&module->ts);
+        module->ts = now;
         intern->stat.hits++;
+        intern->stat.refcount++;
     } else {
         intern->stat.misses++;
     }
@@ -150,17 +172,22 @@ static void cache_add(struct handlebars_cache * cache, struct handlebars_string
     HANDLEBARS_VALUE_DECL(value);
 
     // Check if it would exceed the size
-    if( should_gc(cache) ) {
+    if( should_gc(cache, stat->current_size, stat->current_entries) ) {
         handlebars_cache_gc(cache);
     }
 
-    time(&module->ts);
+    // The entry must not depend on the memory of the caller
+    tmpl = handlebars_string_copy_ctor(HBSCTX(cache), tmpl);
+    handlebars_string_addref(tmpl);
 
-    module = talloc_steal(cache, module);
-    struct handlebars_ptr * uptr = handlebars_ptr_ctor(HBSCTX(cache), struct handlebars_module, module, false);
+    struct handlebars_ptr * uptr = handlebars_ptr_ctor(HBSCTX(cache), struct handlebars_module, module, true);
     handlebars_value_ptr(value, uptr);
 
     intern->map = handlebars_map_add(intern->map, tmpl, value);
+    handlebars_string_delref(tmpl);
+
+    time(&module->ts);
+    talloc_steal(cache, module);
 
     // Update master
     stat->current_entries++;
@@ -171,7 +198,10 @@ static void cache_add(struct handlebars_cache * cache, struct handlebars_string
 
 static void cache_release(struct handlebars_cache * cache, struct handlebars_string * tmpl, struct handlebars_module * module)
 {
-    ;
+    struct handlebars_cache_simple * intern = (struct handlebars_cache_simple *) cache->internal;
+    if( intern->stat.refcount > 0 && --intern->stat.refcount == 0 ) {
+        talloc_free_children(intern->removed);
+    }
 }
 
 static struct handlebars_cache_stat cache_stat(struct handlebars_cache * cache)
@@ -186,10 +216,20 @@ static struct handlebars_cache_stat cache_stat(struct handlebars_cache * cache)
 static void cache_reset(struct handlebars_cache * cache)
 {
     struct handlebars_cache_simple * intern = (struct handlebars_cache_simple *) cache->internal;
-    handlebars_talloc_free(intern->map);
+    struct handlebars_map * map = intern->map;
+    size_t refcount = intern->stat.refcount;
+
     intern->map = handlebars_map_ctor(HBSCTX(cache), 32);
 
+    handlebars_map_foreach(map, index, key, value) {
+        discard_module(intern, handlebars_value_get_ptr(value, struct handlebars_module));
+    } handlebars_map_foreach_end(map);
+
+    handlebars_map_addref(map);
+    handlebars_map_delref(map);
+
     memset(&intern->stat, 0, sizeof(intern->stat));
+    intern->stat.refcount = refcount;
 }
 
 #undef CONTEXT
@@ -215,6 +255,7 @@ struct handlebars_cache * handlebars_cache_simple_ctor(
     struct handlebars_cache_simple * intern = MC(handlebars_talloc_zero(cache, struct handlebars_cache_simple));
     cache->internal = intern;
 
+    intern->removed = MC(handlebars_talloc_zero_size(intern, 1));
     intern->map = handlebars_map_ctor(HBSCTX(cache), 32);
 
     return cache;
-- 
2.43.0


From e0751423cbe5d6a4bd29e4f9c2ccd9a40c1c11fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:39 +0000
Subject: [PATCH 051/102] fix: LMDB cache: gc and reset take effect, records
 and keys are checked

gc and reset aborted their transaction, a failed commit was aborted again,
keys of the maximum size were rejected, longer keys were reduced to 32 bits
and records were read without regard for their size.
---
 src/handlebars_cache_lmdb.c | 127 +++++++++++++++++++++++-------------
 1 file changed, 81 insertions(+), 46 deletions(-)

diff --git a/src/handlebars_cache_lmdb.c b/src/handlebars_cache_lmdb.c
index 36f7745..9465731 100644
--- a/src/handlebars_cache_lmdb.c
+++ b/src/handlebars_cache_lmdb.c
@@ -61,6 +61,31 @@ static int cache_dtor(struct handlebars_cache * cache)
     return 0;
 }
 
+#define MAX_KEY_SIZE 64
+
+static inline void make_key(struct handlebars_cache_lmdb * intern, struct handlebars_string * tmpl, MDB_val * key, char buf[MAX_KEY_SIZE])
+{
+    if( hbs_str_len(tmpl) + 1 > (size_t) mdb_env_get_maxkeysize(intern->env) ) {
+        key->mv_size = (size_t) snprintf(
+            buf,
+            MAX_KEY_SIZE,
+            "hash:%016llx:%zu",
+            (unsigned long long) handlebars_hash_xxh3(hbs_str_val(tmpl), hbs_str_len(tmpl)),
+            hbs_str_len(tmpl)
+        );
+        key->mv_data = buf;
+    } else {
+        key->mv_size = hbs_str_len(tmpl) + 1;
+        key->mv_data = hbs_str_val(tmpl);
+    }
+}
+
+static inline bool has_module(MDB_val * data)
+{
+    return data->mv_size >= sizeof(struct handlebars_module) &&
+        ((struct handlebars_module *) data->mv_data)->size == data->mv_size;
+}
+
 static int cache_gc(struct handlebars_cache * cache)
 {
     struct handlebars_cache_lmdb * intern = (struct handlebars_cache_lmdb *) cache->internal;
@@ -70,8 +95,8 @@ static int cache_gc(struct handlebars_cache * cache)
     MDB_val key;
     MDB_val data;
     MDB_cursor *cursor;
-    MDB_stat stat;
     time_t now;
+    int removed = 0;
 
     time(&now);
 
@@ -81,9 +106,6 @@ static int cache_gc(struct handlebars_cache * cache)
     err = mdb_dbi_open(txn, NULL, MDB_CREATE, &dbi);
     if( err != 0 ) goto error;
 
-    err = mdb_stat(txn, dbi, &stat);
-    if( err != 0 ) goto error;
-
     err = mdb_cursor_open(txn, dbi, &cursor);
     if( err != 0 ) goto error;
 
@@ -93,15 +115,23 @@ static int cache_gc(struct handlebars_cache * cache)
                 data.mv_data, (int) data.mv_size, (char *) data.mv_data); */
 
         struct handlebars_module * module = (struct handlebars_module *) data.mv_data;
-        if( cache->max_age >= 0 && difftime(now, module->ts) > cache->max_age ) {
-            mdb_del(txn, dbi, &key, NULL);
+        if( !has_module(&data) || (cache->max_age >= 0 && difftime(now, module->ts) >= cache->max_age) ) {
+            err = mdb_cursor_del(cursor, 0);
+            if( err != 0 ) break;
+            removed++;
         }
     }
 
     mdb_cursor_close(cursor);
-error:
+    if( err != 0 && err != MDB_NOTFOUND ) goto error;
+
+    err = mdb_txn_commit(txn);
     HANDLE_RC(err);
+    return removed;
+
+error:
     mdb_txn_abort(txn);
+    HANDLE_RC(err);
     return 0;
 }
 
@@ -113,7 +143,7 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     MDB_dbi dbi;
     MDB_val key;
     MDB_val data;
-    char tmp[256];
+    char tmp[MAX_KEY_SIZE];
     struct handlebars_module * module;
     time_t now;
     size_t size;
@@ -127,14 +157,7 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     if( err != 0 ) goto error;
 
     // Make key
-    if( hbs_str_len(tmpl) > (size_t) mdb_env_get_maxkeysize(intern->env) ) {
-        snprintf(tmp, 256, "hash:%lu", (unsigned long) hbs_str_hash(tmpl));
-        key.mv_size = strlen(tmp);
-        key.mv_data = tmp;
-    } else {
-        key.mv_size = hbs_str_len(tmpl) + 1;
-        key.mv_data = hbs_str_val(tmpl);
-    }
+    make_key(intern, tmpl, &key, tmp);
 
     // Fetch data
     err = mdb_get(txn, dbi, &key, &data);
@@ -147,6 +170,12 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
 
     module = ((struct handlebars_module *) data.mv_data);
 
+    // Not something that can be verified
+    if( !has_module(&data) ) {
+        intern->stat.misses++;
+        goto error;
+    }
+
 #if defined(HANDLEBARS_ENABLE_DEBUG)
     // In debug mode, throw
     handlebars_module_verify(module, CONTEXT);
@@ -164,16 +193,19 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
         goto error;
     }
 
-    intern->stat.hits++;
-
     // Duplicate data
     size = module->size;
     module = handlebars_talloc_size(cache, size);
-    talloc_set_type(module, struct handlebars_module);
-    memcpy(module, data.mv_data, size);
+    if( module ) {
+        talloc_set_type(module, struct handlebars_module);
+        memcpy(module, data.mv_data, size);
+    }
 
     // Close
     mdb_txn_abort(txn);
+    HANDLEBARS_MEMCHECK(module, CONTEXT);
+
+    intern->stat.hits++;
 
     // Convert pointers
     handlebars_module_patch_pointers(module);
@@ -197,27 +229,12 @@ static void cache_add(
     MDB_dbi dbi;
     MDB_val key;
     MDB_val data;
-    char tmp[256];
+    char tmp[MAX_KEY_SIZE];
     struct handlebars_module * module_copy;
 
-    err = mdb_txn_begin(intern->env, NULL, 0, &txn);
-    HANDLE_RC(err);
-
-    err = mdb_dbi_open(txn, NULL, MDB_CREATE, &dbi);
-    if( err != 0 ) goto error;
-
-    // Make key
-    if( hbs_str_len(tmpl) > (size_t) mdb_env_get_maxkeysize(intern->env) ) {
-        snprintf(tmp, 256, "hash:%lu", (unsigned long) hbs_str_hash(tmpl));
-        key.mv_size = strlen(tmp);
-        key.mv_data = tmp;
-    } else {
-        key.mv_size = hbs_str_len(tmpl) + 1;
-        key.mv_data = hbs_str_val(tmpl);
-    }
-
     // Normalize pointers
     module_copy = handlebars_talloc_size(CONTEXT, module->size);
+    HANDLEBARS_MEMCHECK(module_copy, CONTEXT);
     talloc_set_type(module_copy, struct handlebars_module);
     memcpy(module_copy, module, module->size);
     handlebars_module_patch_pointers(module_copy);
@@ -228,19 +245,27 @@ static void cache_add(
     data.mv_size = module_copy->size;
     data.mv_data = module_copy;
 
+    // Make key
+    make_key(intern, tmpl, &key, tmp);
+
+    err = mdb_txn_begin(intern->env, NULL, 0, &txn);
+    if( err != 0 ) goto done;
+
+    err = mdb_dbi_open(txn, NULL, MDB_CREATE, &dbi);
+    if( err != 0 ) goto error;
+
     // Store
     err = mdb_put(txn, dbi, &key, &data, 0);
-    handlebars_talloc_free(module_copy);
     if( err != 0 ) goto error;
 
-    // Commit
+    // Commit, this frees the transaction in any case
     err = mdb_txn_commit(txn);
-    if( err != 0 ) goto error;
-
-    return;
+    goto done;
 
 error:
     mdb_txn_abort(txn);
+done:
+    handlebars_talloc_free(module_copy);
     HANDLE_RC(err);
 }
 
@@ -266,7 +291,7 @@ static struct handlebars_cache_stat cache_stat(struct handlebars_cache * cache)
     err = mdb_stat(txn, dbi, &stat);
     if( err != 0 ) goto error;
 
-    intern->stat.name = "mmap";
+    intern->stat.name = "lmdb";
     intern->stat.current_entries = stat.ms_entries;
 
 error:
@@ -291,7 +316,13 @@ static void cache_reset(struct handlebars_cache * cache)
     err = mdb_drop(txn, dbi, 0);
     if( err != 0 ) goto error;
 
-    error:
+    err = mdb_txn_commit(txn);
+    HANDLE_RC(err);
+
+    memset(&intern->stat, 0, sizeof(intern->stat));
+    return;
+
+error:
     mdb_txn_abort(txn);
     HANDLE_RC(err);
 }
@@ -323,10 +354,14 @@ struct handlebars_cache * handlebars_cache_lmdb_ctor(
     struct handlebars_cache_lmdb * intern = (void *) ((char *) cache + sizeof(struct handlebars_cache));
     cache->internal = intern;
 
-    mdb_env_create(&intern->env);
+    int err = mdb_env_create(&intern->env);
+    HANDLE_RC(err);
     talloc_set_destructor(cache, cache_dtor);
 
-    int err = mdb_env_open(intern->env, path, MDB_WRITEMAP | MDB_MAPASYNC | MDB_NOSUBDIR, 0644);
+    err = mdb_env_open(intern->env, path, MDB_WRITEMAP | MDB_MAPASYNC | MDB_NOSUBDIR, 0644);
+    if( err != 0 ) {
+        handlebars_talloc_free(cache);
+    }
     HANDLE_RC(err);
 
     return cache;
-- 
2.43.0


From 37fa9e10ffaa9cf06c5c9e530d621a3309d60941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:39 +0000
Subject: [PATCH 052/102] fix: mmap cache: races between find and reset, stale
 entries, sizes

A reader holds its reference before it looks at the table, only one reset
runs at a time, expired entries are not returned, a full data segment does
not leave an empty slot counted, errors of mprotect do not leave the lock
held, and the segment sizes are checked.
---
 src/handlebars_cache_mmap.c | 140 +++++++++++++++++++++++++-----------
 1 file changed, 100 insertions(+), 40 deletions(-)

diff --git a/src/handlebars_cache_mmap.c b/src/handlebars_cache_mmap.c
index 5f5b5ae..437dc6f 100644
--- a/src/handlebars_cache_mmap.c
+++ b/src/handlebars_cache_mmap.c
@@ -148,11 +148,16 @@ static inline void * append(struct handlebars_cache_mmap * intern, void * source
     return addr;
 }
 
-static inline void protect(struct handlebars_cache * cache, bool on)
+static inline int protect(struct handlebars_cache * cache, bool on)
 {
     struct handlebars_cache_mmap * intern = (struct handlebars_cache_mmap *) cache->internal;
     int prot = on ? PROT_READ : PROT_READ | PROT_WRITE;
-    int rc = mprotect(intern->table, intern->table_size + intern->data_size, prot);
+    return mprotect(intern->table, intern->table_size + intern->data_size, prot) == 0 ? 0 : errno;
+}
+
+// Only to be called when neither the lock nor a reference is held
+static inline void protect_check(struct handlebars_cache * cache, int rc)
+{
     if( rc != 0 ) {
         handlebars_throw(HBSCTX(cache), HANDLEBARS_ERROR, "mprotect error: %s (%d)", strerror(rc), rc);
     }
@@ -196,14 +201,11 @@ static inline struct table_entry * table_find(struct handlebars_cache_mmap * int
     return intern->table[offset];
 }
 
-static inline void table_set(struct handlebars_cache_mmap * intern, struct table_entry * entry)
+static inline bool table_set(struct handlebars_cache_mmap * intern, struct table_entry * entry)
 {
     uint32_t offset = hbs_str_hash(entry->key) % intern->table_count;
-    if( entry == NULL ) {
-        intern->table[offset] = NULL;
-    } else {
-        intern->table[offset] = append(intern, entry, sizeof(struct table_entry));
-    }
+    intern->table[offset] = append(intern, entry, sizeof(struct table_entry));
+    return intern->table[offset] != NULL;
 }
 
 static inline void table_unset(struct handlebars_cache_mmap * intern, struct handlebars_string * string)
@@ -212,6 +214,30 @@ static inline void table_unset(struct handlebars_cache_mmap * intern, struct han
     intern->table[offset] = NULL;
 }
 
+static inline bool load_in_reset(struct handlebars_cache * cache)
+{
+    struct handlebars_cache_mmap * intern = (struct handlebars_cache_mmap *) cache->internal;
+#ifdef HAVE_ATOMIC_BUILTINS
+    return __atomic_load_n(&intern->in_reset, __ATOMIC_SEQ_CST);
+#else
+    return intern->in_reset;
+#endif
+}
+
+static inline bool exchange_in_reset(struct handlebars_cache * cache, bool value)
+{
+    struct handlebars_cache_mmap * intern = (struct handlebars_cache_mmap *) cache->internal;
+#ifdef HAVE_ATOMIC_BUILTINS
+    return __atomic_exchange_n(&intern->in_reset, value, __ATOMIC_SEQ_CST);
+#else
+    lock(cache);
+    bool prev = intern->in_reset;
+    intern->in_reset = value;
+    unlock(cache);
+    return prev;
+#endif
+}
+
 static int cache_dtor(struct handlebars_cache * cache)
 {
     struct handlebars_cache_mmap * intern = (struct handlebars_cache_mmap *) cache->internal;
@@ -228,8 +254,12 @@ static void cache_reset(struct handlebars_cache * cache)
 {
     struct handlebars_cache_mmap * intern = (struct handlebars_cache_mmap *) cache->internal;
 
-    // Lock
-    intern->in_reset = true;
+    int rc = 0;
+
+    // Lock, or leave it to whoever is resetting already
+    if( exchange_in_reset(cache, true) ) {
+        return;
+    }
 
     // Try to wait for refcount to empty
 #ifdef HAVE_ATOMIC_BUILTINS
@@ -248,22 +278,26 @@ static void cache_reset(struct handlebars_cache * cache)
 
     // Unprotect/Lock
     lock(cache);
-    protect(cache, false);
+    rc = protect(cache, false);
+    if( rc == 0 ) {
+        // Initialize header
+        intern->table_entries = 0;
+        intern->data_length = 0;
 
-    // Initialize header
-    intern->table_entries = 0;
-    intern->data_length = 0;
+        // Zero out the hash table
+        memset(intern->table, 0, intern->table_size);
 
-    // Zero out the hash table
-    memset(intern->table, 0, intern->table_size);
+        // Protect
+        rc = protect(cache, true);
+    }
 
-    // Protect/Unlock
-    protect(cache, true);
+    // Unlock
     unlock(cache);
 
 error:
     // Unlock
-    intern->in_reset = false;
+    exchange_in_reset(cache, false);
+    protect_check(cache, rc);
 }
 
 static int cache_gc(struct handlebars_cache * cache)
@@ -277,10 +311,14 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     struct handlebars_cache_mmap * intern = (struct handlebars_cache_mmap *) cache->internal;
     struct handlebars_module * module = NULL;
     time_t now;
+    int rc = 0;
+
+    // Hold off a reset until the entry is released
+    INCR(intern->refcount);
 
     // Currently resetting
-    if( intern->in_reset ) {
-        return NULL;
+    if( load_in_reset(cache) ) {
+        goto error;
     }
 
     // Find entry
@@ -305,26 +343,33 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     // Check if it's too old or wrong version
     time(&now);
     if( module->version != handlebars_version() || (cache->max_age >= 0 && difftime(now, module->ts) >= cache->max_age) ) {
+        module = NULL;
+        INCR(intern->misses);
         lock(cache);
-        protect(cache, false);
-        table_unset(intern, key);
-        intern->misses++;
-        intern->table_entries--;
-        protect(cache, true);
+        // It may have been replaced in the meantime
+        if( table_find(intern, key) == entry && (rc = protect(cache, false)) == 0 ) {
+            table_unset(intern, key);
+            intern->table_entries--;
+            rc = protect(cache, true);
+        }
         unlock(cache);
         goto error;
     }
 
     // Check for pointer mismatch
     if( unlikely((void *) module != module->addr) ) {
-        handlebars_throw(CONTEXT, HANDLEBARS_ERROR, "Shared memory pointer mismatch: %p != %p", module, module->addr);
+        void * addr = module->addr;
+        DECR(intern->refcount);
+        handlebars_throw(CONTEXT, HANDLEBARS_ERROR, "Shared memory pointer mismatch: %p != %p", module, addr);
     }
 
     INCR(intern->hits);
-    INCR(intern->refcount);
+    return module;
 
 error:
-    return module;
+    DECR(intern->refcount);
+    protect_check(cache, rc);
+    return NULL;
 }
 
 static void cache_add(
@@ -336,13 +381,17 @@ static void cache_add(
     struct table_entry entry;
 
     // Currently resetting
-    if( intern->in_reset ) {
+    if( load_in_reset(cache) ) {
         return;
     }
 
     // Lock
     lock(cache);
-    protect(cache, false);
+    int rc = protect(cache, false);
+    if( rc != 0 ) {
+        unlock(cache);
+        protect_check(cache, rc);
+    }
 
     assert(module == module->addr);
 
@@ -363,23 +412,30 @@ static void cache_add(
 
     // Check for failure
     if( unlikely(!entry.key || !entry.data) ) {
-        protect(cache, true);
-        unlock(cache);
-        cache_reset(cache);
-        return;
+        goto full;
     }
 
     // Pre-patch pointers
     handlebars_module_patch_pointers(entry.data);
 
     // Finish;
-    table_set(intern, &entry);
+    if( unlikely(!table_set(intern, &entry)) ) {
+        goto full;
+    }
     intern->table_entries++;
 
 error:
     // Unlock
-    protect(cache, true);
+    rc = protect(cache, true);
+    unlock(cache);
+    protect_check(cache, rc);
+    return;
+
+full:
+    rc = protect(cache, true);
     unlock(cache);
+    protect_check(cache, rc);
+    cache_reset(cache);
 }
 
 static void cache_release(struct handlebars_cache * cache, struct handlebars_string * tmpl, struct handlebars_module * module)
@@ -446,11 +502,15 @@ struct handlebars_cache * handlebars_cache_mmap_ctor(
     size_t intern_size = handlebars_align_size(sizeof(struct handlebars_cache_mmap), page_size);
     size_t shm_size = handlebars_align_size(size, page_size);
     size_t table_size = handlebars_align_size(entries * sizeof(struct table_entry *), page_size);
-    size_t data_size = shm_size - table_size - intern_size;
 
-    if( table_size >= shm_size ) {
+    if( entries > UINT32_MAX || shm_size <= intern_size || table_size >= shm_size - intern_size ) {
         handlebars_throw(CONTEXT, HANDLEBARS_ERROR, "Table size must not be greater than segment size");
     }
+    if( entries == 0 ) {
+        handlebars_throw(CONTEXT, HANDLEBARS_ERROR, "Table must have at least one entry");
+    }
+
+    size_t data_size = shm_size - table_size - intern_size;
 
     struct handlebars_cache_mmap * intern = mmap(NULL, shm_size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
     if( intern == MAP_FAILED ) {
@@ -483,7 +543,7 @@ struct handlebars_cache * handlebars_cache_mmap_ctor(
     }
 
     cache_reset(cache);
-    protect(cache, true);
+    protect_check(cache, protect(cache, true));
 
     return cache;
 }
-- 
2.43.0


From d3b0c0f51ad888ce53cb22b092367ff6b90ac260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:39 +0000
Subject: [PATCH 053/102] fix: VM uses cached modules compiled with other
 flags, or freed by the cache

---
 src/handlebars_vm.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 77a8810..98c8999 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -323,6 +323,16 @@ static inline struct handlebars_value * merge_hash(struct handlebars_context * c
     return input;
 }
 
+static struct handlebars_module * copy_module(struct handlebars_context * context, struct handlebars_module * module)
+{
+    struct handlebars_module * copy = handlebars_talloc_size(context, module->size);
+    HANDLEBARS_MEMCHECK(copy, context);
+    talloc_set_type(copy, struct handlebars_module);
+    memcpy(copy, module, module->size);
+    handlebars_module_patch_pointers(copy);
+    return copy;
+}
+
 HBS_ATTR_NONNULL(1, 2)
 static struct handlebars_string * execute_template(
     struct handlebars_vm * vm,
@@ -336,6 +346,7 @@ static struct handlebars_string * execute_template(
     struct handlebars_string * volatile retval = NULL;
     struct handlebars_module * volatile module = NULL;
     bool volatile from_cache = false;
+    bool cacheable = vm->cache != NULL;
     bool volatile failed = false;
     long prev_depth = vm->depth;
     jmp_buf * prev_jmp = HBSCTX(vm)->e->jmp;
@@ -379,6 +390,12 @@ static struct handlebars_string * execute_template(
     if( vm->cache ) {
         module = handlebars_cache_find(vm->cache, tmpl);
         from_cache = module != NULL;
+        if( from_cache && module->flags != (vm->flags & handlebars_compiler_flag_all) ) {
+            // Compiled with other flags, leave it to the VMs that use them
+            handlebars_cache_release(vm->cache, tmpl, module);
+            from_cache = false;
+            cacheable = false;
+        }
     }
 
     if( !from_cache ) {
@@ -395,8 +412,9 @@ static struct handlebars_string * execute_template(
         module = handlebars_program_serialize(context, program);
 
         // Save cache entry
-        if( vm->cache ) {
-            handlebars_cache_add(vm->cache, tmpl, module);
+        if( cacheable ) {
+            // The cache may drop its module while this one is being executed
+            handlebars_cache_add(vm->cache, tmpl, copy_module(context, module));
         }
 
         // Cleanup parser
-- 
2.43.0


From 6c69ee3c244f7d13cd235a3259d006ce92259674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:49 +0000
Subject: [PATCH 054/102] fix: a partial name with a NUL byte opened the file
 named by the part before it

and dropped the configured extension.
---
 src/handlebars_partial_loader.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/handlebars_partial_loader.c b/src/handlebars_partial_loader.c
index 6f97ce7..df8cef1 100644
--- a/src/handlebars_partial_loader.c
+++ b/src/handlebars_partial_loader.c
@@ -90,6 +90,10 @@ static struct handlebars_value * hbs_partial_loader_map_find(struct handlebars_v
         return rv;
     }
 
+    if (NULL != memchr(hbs_str_val(key), 0, hbs_str_len(key))) {
+        handlebars_throw(intern->user.ctx, HANDLEBARS_ERROR, "Failed to open partial: the name contains a NUL byte");
+    }
+
     struct handlebars_string *filename = handlebars_string_copy_ctor(intern->user.ctx, intern->base_path);
     filename = handlebars_string_append(intern->user.ctx, filename, HBS_STRL("/"));
     filename = handlebars_string_append_str(intern->user.ctx, filename, key);
-- 
2.43.0


From 35bd5791cd26741796916e3b01250eec9a716b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:49 +0000
Subject: [PATCH 055/102] fix: the partial loader read with a size it did not
 check

The size of a directory is LONG_MAX, and that of a stream that cannot seek is -1: size + 1 overflowed and fread() wrote to a block that was not allocated.
---
 src/handlebars_partial_loader.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/handlebars_partial_loader.c b/src/handlebars_partial_loader.c
index df8cef1..dfccce9 100644
--- a/src/handlebars_partial_loader.c
+++ b/src/handlebars_partial_loader.c
@@ -20,6 +20,7 @@
 #endif
 
 #include <assert.h>
+#include <limits.h>
 #include <string.h>
 #include <talloc.h>
 
@@ -102,19 +103,20 @@ static struct handlebars_value * hbs_partial_loader_map_find(struct handlebars_v
     }
 
     FILE * f;
-    long size;
+    long size = 0;
+    size_t read = 0;
+    char * buf = NULL;
 
     f = fopen(hbs_str_val(filename), "rb");
     if( !f ) {
         handlebars_throw(intern->user.ctx, HANDLEBARS_ERROR, "File to open partial: %.*s", (int) hbs_str_len(filename), hbs_str_val(filename));
     }
 
-    fseek(f, 0, SEEK_END);
-    size = ftell(f);
-    fseek(f, 0, SEEK_SET);
-
-    char * buf = handlebars_talloc_array(intern->user.ctx, char, size + 1);
-    size_t read = fread(buf, size, 1, f);
+    // The size of a directory is LONG_MAX
+    if (0 == fseek(f, 0, SEEK_END) && (size = ftell(f)) > 0 && size < LONG_MAX && 0 == fseek(f, 0, SEEK_SET)) {
+        buf = handlebars_talloc_array(intern->user.ctx, char, size + 1);
+        read = fread(buf, size, 1, f);
+    }
     fclose(f);
 
     if (!read) {
-- 
2.43.0


From c1e8e8905e598433008169dadfe7431b6681cc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:49 +0000
Subject: [PATCH 056/102] fix: the partial loader crashed and kept the file
 open when its buffer could not be allocated

---
 src/handlebars_partial_loader.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/handlebars_partial_loader.c b/src/handlebars_partial_loader.c
index dfccce9..90cce51 100644
--- a/src/handlebars_partial_loader.c
+++ b/src/handlebars_partial_loader.c
@@ -115,6 +115,10 @@ static struct handlebars_value * hbs_partial_loader_map_find(struct handlebars_v
     // The size of a directory is LONG_MAX
     if (0 == fseek(f, 0, SEEK_END) && (size = ftell(f)) > 0 && size < LONG_MAX && 0 == fseek(f, 0, SEEK_SET)) {
         buf = handlebars_talloc_array(intern->user.ctx, char, size + 1);
+        if (!buf) {
+            fclose(f);
+            HANDLEBARS_MEMCHECK(buf, intern->user.ctx);
+        }
         read = fread(buf, size, 1, f);
     }
     fclose(f);
-- 
2.43.0


From 5ce7d202c4158e6da74e9170768cd97306aff2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:59 +0000
Subject: [PATCH 057/102] fix: handlebarsc reported success when its output
 could not be written

---
 bin/handlebarsc.c | 48 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/bin/handlebarsc.c b/bin/handlebarsc.c
index 26c5b92..3c677cf 100644
--- a/bin/handlebarsc.c
+++ b/bin/handlebarsc.c
@@ -748,6 +748,36 @@ static int do_execute(void)
     return 0;
 }
 
+static int run_mode(void)
+{
+    switch( mode ) {
+        case handlebarsc_mode_version: return do_version();
+        case handlebarsc_mode_lex: return do_lex();
+        case handlebarsc_mode_parse: return do_parse();
+        case handlebarsc_mode_compile: return do_compile();
+        case handlebarsc_mode_module: return do_module();
+        case handlebarsc_mode_execute: return do_execute();
+        case handlebarsc_mode_debuginfo: return do_debuginfo();
+        case handlebarsc_mode_usage: return do_usage();
+
+        // LCOV_EXCL_START
+        default:
+            assert(0);
+            do_usage();
+            return 1;
+        // LCOV_EXCL_STOP
+    }
+}
+
+static int finish_output(int rv)
+{
+    if (0 != fflush(stdout) || ferror(stdout)) {
+        fprintf(stderr, "Failed to write output\n");
+        return 1;
+    }
+    return rv;
+}
+
 int main(int argc, char * argv[])
 {
 #ifdef HANDLEBARS_HAVE_VALGRIND
@@ -778,21 +808,5 @@ int main(int argc, char * argv[])
         }
     }
 
-    switch( mode ) {
-        case handlebarsc_mode_version: return do_version();
-        case handlebarsc_mode_lex: return do_lex();
-        case handlebarsc_mode_parse: return do_parse();
-        case handlebarsc_mode_compile: return do_compile();
-        case handlebarsc_mode_module: return do_module();
-        case handlebarsc_mode_execute: return do_execute();
-        case handlebarsc_mode_debuginfo: return do_debuginfo();
-        case handlebarsc_mode_usage: return do_usage();
-
-        // LCOV_EXCL_START
-        default:
-            assert(0);
-            do_usage();
-            return 1;
-        // LCOV_EXCL_STOP
-    }
+    return finish_output(run_mode());
 }
-- 
2.43.0


From 9082cccbe1bbdb79e255f1f8945bebdfbd550b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:20 +0000
Subject: [PATCH 058/102] fix: handlebarsc read files with a size it did not
 check

A directory has the size LONG_MAX, a stream that cannot seek -1: size + 1 overflowed.
---
 bin/handlebarsc.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/bin/handlebarsc.c b/bin/handlebarsc.c
index 3c677cf..72ab6f9 100644
--- a/bin/handlebarsc.c
+++ b/bin/handlebarsc.c
@@ -19,6 +19,7 @@
 #include "config.h"
 #endif
 
+#include <limits.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
@@ -301,8 +302,9 @@ static char * read_stdin(void)
 static char * file_get_contents(char * filename)
 {
     FILE * f;
-    long size;
-    char * buf;
+    long size = 0;
+    size_t read = 0;
+    char * buf = NULL;
 
     // No input file?
     if( !filename ) {
@@ -318,21 +320,20 @@ static char * file_get_contents(char * filename)
         exit(1);
     }
 
-    fseek(f, 0, SEEK_END);
-    size = ftell(f);
-    fseek(f, 0, SEEK_SET);
-
-    buf = talloc_array(root, char, size + 1);
-    size_t read = fread(buf, size, 1, f);
+    // The size of a directory is LONG_MAX
+    if (0 == fseek(f, 0, SEEK_END) && (size = ftell(f)) > 0 && size < LONG_MAX && 0 == fseek(f, 0, SEEK_SET)) {
+        buf = talloc_array(root, char, size + 1);
+        read = fread(buf, size, 1, f);
+    }
     fclose(f);
 
-    buf[size] = 0;
-
     if (!read) {
         fprintf(stderr, "Failed to read file: %s\n", filename);
         exit(1);
     }
 
+    buf[size] = 0;
+
     return buf;
 }
 
-- 
2.43.0


From c74cf24280d86d47186f6e3c00ca6a512ff94b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:20 +0000
Subject: [PATCH 059/102] fix: handlebarsc took a failed read from standard
 input for its end

and dropped the rest of every line after a NUL byte.
---
 bin/handlebarsc.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/bin/handlebarsc.c b/bin/handlebarsc.c
index 72ab6f9..8074ec0 100644
--- a/bin/handlebarsc.c
+++ b/bin/handlebarsc.c
@@ -289,13 +289,24 @@ static char * read_stdin(void)
 {
     char buffer[__BUFF_SIZE];
     FILE * in = stdin;
-    char * buf = talloc_strdup(root, "");
+    size_t length = 0;
+    size_t read;
+    char * buf = talloc_array(root, char, 1);
 
     // Read
-    while( fgets(buffer, __BUFF_SIZE, in) != NULL ) {
-        buf = talloc_strdup_append_buffer(buf, buffer);
+    while( (read = fread(buffer, 1, __BUFF_SIZE, in)) > 0 ) {
+        buf = talloc_realloc(root, buf, char, length + read + 1);
+        memcpy(buf + length, buffer, read);
+        length += read;
     }
 
+    if( ferror(in) ) {
+        fprintf(stderr, "Failed to read file: -\n");
+        exit(1);
+    }
+
+    buf[length] = 0;
+
     return buf;
 }
 
-- 
2.43.0


From 027428be9816738b3e7f972a98b016d9d1ed9a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:20 +0000
Subject: [PATCH 060/102] fix: handlebarsc dropped the template from its first
 NUL byte on

---
 bin/handlebarsc.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bin/handlebarsc.c b/bin/handlebarsc.c
index 8074ec0..c88f3d4 100644
--- a/bin/handlebarsc.c
+++ b/bin/handlebarsc.c
@@ -477,7 +477,7 @@ static int do_lex(void)
 
     // Read
     readInput();
-    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, strlen(input_buf));
+    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, input_buf_length);
 
     // Preprocess
     if( compiler_flags & handlebars_compiler_flag_compat ) {
@@ -520,7 +520,7 @@ static int do_parse(void)
 
     // Read
     readInput();
-    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, strlen(input_buf));
+    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, input_buf_length);
 
     // Preprocess
     if( compiler_flags & handlebars_compiler_flag_compat ) {
@@ -566,7 +566,7 @@ static int do_compile(void)
 
     // Read
     readInput();
-    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, strlen(input_buf));
+    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, input_buf_length);
 
     // Preprocess
     if( compiler_flags & handlebars_compiler_flag_compat ) {
@@ -615,7 +615,7 @@ static int do_module(void)
 
     // Read
     readInput();
-    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, strlen(input_buf));
+    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, input_buf_length);
 
     // Preprocess
     if( compiler_flags & handlebars_compiler_flag_compat ) {
@@ -680,7 +680,7 @@ static int do_execute(void)
 
     // Read
     readInput();
-    tmpl = handlebars_string_ctor(HBSCTX(parser), input_buf, strlen(input_buf));
+    tmpl = handlebars_string_ctor(HBSCTX(parser), input_buf, input_buf_length);
 
     // Preprocess
     if( compiler_flags & handlebars_compiler_flag_compat ) {
-- 
2.43.0


From 20f3dd2b97742044cb495840f28f049d5eb9a64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:34 +0000
Subject: [PATCH 061/102] fix: handlebarsc crashed when it ran out of memory
 outside the library

---
 bin/handlebarsc.c | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/bin/handlebarsc.c b/bin/handlebarsc.c
index c88f3d4..f20267d 100644
--- a/bin/handlebarsc.c
+++ b/bin/handlebarsc.c
@@ -285,17 +285,26 @@ start:
     goto start;
 }
 
+static void * check_alloc(void * ptr)
+{
+    if( !ptr ) {
+        fprintf(stderr, "Out of memory\n");
+        exit(1);
+    }
+    return ptr;
+}
+
 static char * read_stdin(void)
 {
     char buffer[__BUFF_SIZE];
     FILE * in = stdin;
     size_t length = 0;
     size_t read;
-    char * buf = talloc_array(root, char, 1);
+    char * buf = check_alloc(talloc_array(root, char, 1));
 
     // Read
     while( (read = fread(buffer, 1, __BUFF_SIZE, in)) > 0 ) {
-        buf = talloc_realloc(root, buf, char, length + read + 1);
+        buf = check_alloc(talloc_realloc(root, buf, char, length + read + 1));
         memcpy(buf + length, buffer, read);
         length += read;
     }
@@ -333,7 +342,7 @@ static char * file_get_contents(char * filename)
 
     // The size of a directory is LONG_MAX
     if (0 == fseek(f, 0, SEEK_END) && (size = ftell(f)) > 0 && size < LONG_MAX && 0 == fseek(f, 0, SEEK_SET)) {
-        buf = talloc_array(root, char, size + 1);
+        buf = check_alloc(talloc_array(root, char, size + 1));
         read = fread(buf, size, 1, f);
     }
     fclose(f);
@@ -466,7 +475,7 @@ static int do_lex(void)
     struct handlebars_token ** tokens;
     jmp_buf jmp;
 
-    ctx = handlebars_context_ctor_ex(root);
+    ctx = check_alloc(handlebars_context_ctor_ex(root));
 
     // Save jump buffer
     if( handlebars_setjmp_ex(ctx, &jmp) ) {
@@ -509,7 +518,7 @@ static int do_parse(void)
     struct handlebars_ast_node * ast;
     jmp_buf jmp;
 
-    ctx = handlebars_context_ctor_ex(root);
+    ctx = check_alloc(handlebars_context_ctor_ex(root));
 
     // Save jump buffer
     if( handlebars_setjmp_ex(ctx, &jmp) ) {
@@ -550,7 +559,7 @@ static int do_compile(void)
     struct handlebars_program * program;
     jmp_buf jmp;
 
-    ctx = handlebars_context_ctor_ex(root);
+    ctx = check_alloc(handlebars_context_ctor_ex(root));
 
     // Save jump buffer
     if( handlebars_setjmp_ex(ctx, &jmp) ) {
@@ -599,7 +608,7 @@ static int do_module(void)
     struct handlebars_module * module;
     jmp_buf jmp;
 
-    ctx = handlebars_context_ctor_ex(root);
+    ctx = check_alloc(handlebars_context_ctor_ex(root));
 
     // Save jump buffer
     if( handlebars_setjmp_ex(ctx, &jmp) ) {
@@ -656,7 +665,7 @@ static int do_execute(void)
     HANDLEBARS_VALUE_DECL(partials);
     jmp_buf jmp;
 
-    ctx = handlebars_context_ctor_ex(root);
+    ctx = check_alloc(handlebars_context_ctor_ex(root));
 
     // Save jump buffer
     if( handlebars_setjmp_ex(ctx, &jmp) ) {
@@ -798,7 +807,7 @@ int main(int argc, char * argv[])
     }
 #endif
 
-    root = talloc_new(NULL);
+    root = check_alloc(talloc_new(NULL));
 
     if( argc <= 1 ) {
         do_usage();
@@ -809,7 +818,7 @@ int main(int argc, char * argv[])
 
     if (pool_size > 0) {
         void * old_root = root;
-        root = talloc_pool(NULL, pool_size);
+        root = check_alloc(talloc_pool(NULL, pool_size));
         talloc_steal(root, old_root);
     }
 
-- 
2.43.0


From 74b9c103b881b4e2a16b32473a4c9283ca5852c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:48 +0000
Subject: [PATCH 062/102] fix: handlebarsc read data from a file with a five
 letter name ending in .yml as JSON

---
 bin/handlebarsc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/handlebarsc.c b/bin/handlebarsc.c
index f20267d..15c4429 100644
--- a/bin/handlebarsc.c
+++ b/bin/handlebarsc.c
@@ -703,8 +703,8 @@ static int do_execute(void)
         char * input_str = file_get_contents(input_data_name);
         size_t input_str_size = talloc_array_length(input_str);
         if (input_str && input_str_size > 1) {
-            if (handlebars_value_is_empty(input) && input_data_name_len > 5 && (0 == strcmp(input_data_name + input_data_name_len - 5, ".yaml") ||
-                    0 == strcmp(input_data_name + input_data_name_len - 4, ".yml"))) {
+            if (handlebars_value_is_empty(input) && ((input_data_name_len > 5 && 0 == strcmp(input_data_name + input_data_name_len - 5, ".yaml")) ||
+                    (input_data_name_len > 4 && 0 == strcmp(input_data_name + input_data_name_len - 4, ".yml")))) {
 #ifdef HANDLEBARS_HAVE_YAML
                 handlebars_value_init_yaml_string(ctx, input, input_str);
 #else
-- 
2.43.0


From 5a355a348fb6a73f83d71622ff0227a8bafb5114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:48 +0000
Subject: [PATCH 063/102] fix: handlebarsc read YAML data that is an empty
 value a second time as JSON

---
 bin/handlebarsc.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bin/handlebarsc.c b/bin/handlebarsc.c
index 15c4429..8857ba8 100644
--- a/bin/handlebarsc.c
+++ b/bin/handlebarsc.c
@@ -703,16 +703,15 @@ static int do_execute(void)
         char * input_str = file_get_contents(input_data_name);
         size_t input_str_size = talloc_array_length(input_str);
         if (input_str && input_str_size > 1) {
-            if (handlebars_value_is_empty(input) && ((input_data_name_len > 5 && 0 == strcmp(input_data_name + input_data_name_len - 5, ".yaml")) ||
-                    (input_data_name_len > 4 && 0 == strcmp(input_data_name + input_data_name_len - 4, ".yml")))) {
+            if ((input_data_name_len > 5 && 0 == strcmp(input_data_name + input_data_name_len - 5, ".yaml")) ||
+                    (input_data_name_len > 4 && 0 == strcmp(input_data_name + input_data_name_len - 4, ".yml"))) {
 #ifdef HANDLEBARS_HAVE_YAML
                 handlebars_value_init_yaml_string(ctx, input, input_str);
 #else
                 fprintf(stderr, "Failed to process input data: YAML support is disabled");
                 exit(1);
 #endif
-            }
-            if (handlebars_value_is_empty(input)) {
+            } else {
 #ifdef HANDLEBARS_HAVE_JSON
                 // assume json
                 handlebars_value_init_json_stringl(ctx, input, input_str, input_str_size - 1);
-- 
2.43.0


From aafbc0d220e780b43f0aab589545d802705cd316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:31 +0000
Subject: [PATCH 064/102] fix: YAML data whose alias refers to the node it is
 in overflowed the stack

---
 src/handlebars_yaml.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/handlebars_yaml.c b/src/handlebars_yaml.c
index 6f9b350..0bd3c6f 100644
--- a/src/handlebars_yaml.c
+++ b/src/handlebars_yaml.c
@@ -30,7 +30,9 @@
 #include "handlebars_value.h"
 #include "handlebars_yaml.h"
 
-
+// Same as the nesting limit of libyaml's parser. An alias can make a document
+// deeper than its text, or even refer to the node it is in
+#define HANDLEBARS_YAML_MAX_DEPTH 1000
 
 struct _yaml_ctx {
     yaml_parser_t parser;
@@ -44,8 +46,12 @@ static int _yaml_ctx_dtor(struct _yaml_ctx * holder)
     return 0;
 }
 
-void handlebars_value_init_yaml_node(struct handlebars_context *ctx, struct handlebars_value * value, struct yaml_document_s * document, struct yaml_node_s * node)
+static void init_yaml_node(struct handlebars_context *ctx, struct handlebars_value * value, struct yaml_document_s * document, struct yaml_node_s * node, int depth)
 {
+    if( depth > HANDLEBARS_YAML_MAX_DEPTH ) {
+        handlebars_throw(ctx, HANDLEBARS_ERROR, "YAML Parse Error: nodes are nested too deeply");
+    }
+
     HANDLEBARS_VALUE_DECL(tmp);
     yaml_node_pair_t * pair;
     yaml_node_item_t * item;
@@ -58,7 +64,7 @@ void handlebars_value_init_yaml_node(struct handlebars_context *ctx, struct hand
                 yaml_node_t * keyNode = yaml_document_get_node(document, pair->key);
                 yaml_node_t * valueNode = yaml_document_get_node(document, pair->value);
                 assert(keyNode->type == YAML_SCALAR_NODE);
-                handlebars_value_init_yaml_node(ctx, tmp, document, valueNode);
+                init_yaml_node(ctx, tmp, document, valueNode, depth + 1);
                 map = handlebars_map_str_update(map, (const char *) keyNode->data.scalar.value, keyNode->data.scalar.length, tmp);
             }
             handlebars_value_map(value, map);
@@ -68,7 +74,7 @@ void handlebars_value_init_yaml_node(struct handlebars_context *ctx, struct hand
             struct handlebars_stack * stack = handlebars_stack_ctor(ctx, node->data.sequence.items.top - node->data.sequence.items.start);
             for( item = node->data.sequence.items.start; item < node->data.sequence.items.top; item++) {
                 yaml_node_t * valueNode = yaml_document_get_node(document, *item);
-                handlebars_value_init_yaml_node(ctx, tmp, document, valueNode);
+                init_yaml_node(ctx, tmp, document, valueNode, depth + 1);
                 stack = handlebars_stack_push(stack, tmp);
             }
             handlebars_value_array(value, stack);
@@ -108,6 +114,11 @@ done:
     HANDLEBARS_VALUE_UNDECL(tmp);
 }
 
+void handlebars_value_init_yaml_node(struct handlebars_context *ctx, struct handlebars_value * value, struct yaml_document_s * document, struct yaml_node_s * node)
+{
+    init_yaml_node(ctx, value, document, node, 0);
+}
+
 void handlebars_value_init_yaml_string(struct handlebars_context * ctx, struct handlebars_value * value, const char * yaml)
 {
     struct _yaml_ctx * yctx = handlebars_talloc_zero(ctx, struct _yaml_ctx);
-- 
2.43.0


From e7e7ae389c368a1d9f3757c55b61a1ec463daad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:31 +0000
Subject: [PATCH 065/102] fix: YAML data with a mapping key that is not a
 scalar was read as if it were one

---
 src/handlebars_yaml.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_yaml.c b/src/handlebars_yaml.c
index 0bd3c6f..971ccd1 100644
--- a/src/handlebars_yaml.c
+++ b/src/handlebars_yaml.c
@@ -63,7 +63,9 @@ static void init_yaml_node(struct handlebars_context *ctx, struct handlebars_val
             for( pair = node->data.mapping.pairs.start; pair < node->data.mapping.pairs.top; pair++ ) {
                 yaml_node_t * keyNode = yaml_document_get_node(document, pair->key);
                 yaml_node_t * valueNode = yaml_document_get_node(document, pair->value);
-                assert(keyNode->type == YAML_SCALAR_NODE);
+                if( keyNode->type != YAML_SCALAR_NODE ) {
+                    handlebars_throw(ctx, HANDLEBARS_ERROR, "YAML Parse Error: a mapping key must be a scalar");
+                }
                 init_yaml_node(ctx, tmp, document, valueNode, depth + 1);
                 map = handlebars_map_str_update(map, (const char *) keyNode->data.scalar.value, keyNode->data.scalar.length, tmp);
             }
-- 
2.43.0


From dd26c5264a14bfeb597c1f85a3fbca59e38d13a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:31 +0000
Subject: [PATCH 066/102] fix: quoted YAML scalars were read as numbers and
 booleans, the empty one as 0

---
 src/handlebars_yaml.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_yaml.c b/src/handlebars_yaml.c
index 971ccd1..6ba016c 100644
--- a/src/handlebars_yaml.c
+++ b/src/handlebars_yaml.c
@@ -83,7 +83,9 @@ static void init_yaml_node(struct handlebars_context *ctx, struct handlebars_val
             break;
         }
         case YAML_SCALAR_NODE:
-            if( 0 == strcmp((const char *) node->data.scalar.value, "true") ) {
+            if( node->data.scalar.style != YAML_PLAIN_SCALAR_STYLE ) {
+                handlebars_value_str(value, handlebars_string_ctor(ctx, (const char *) node->data.scalar.value, node->data.scalar.length));
+            } else if( 0 == strcmp((const char *) node->data.scalar.value, "true") ) {
                 handlebars_value_boolean(value, 1);
             } else if( 0 == strcmp((const char *) node->data.scalar.value, "false") ) {
                 handlebars_value_boolean(value, 0);
-- 
2.43.0


From c29fa065752d6782d5fe802bcbb8c09d3c9e0d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:31 +0000
Subject: [PATCH 067/102] fix: YAML nulls were read as the strings ~ and null,
 an empty one as 0

---
 src/handlebars_yaml.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/handlebars_yaml.c b/src/handlebars_yaml.c
index 6ba016c..122fef0 100644
--- a/src/handlebars_yaml.c
+++ b/src/handlebars_yaml.c
@@ -46,6 +46,11 @@ static int _yaml_ctx_dtor(struct _yaml_ctx * holder)
     return 0;
 }
 
+static bool is_yaml_null(const char * str)
+{
+    return *str == '\0' || 0 == strcmp(str, "~") || 0 == strcmp(str, "null");
+}
+
 static void init_yaml_node(struct handlebars_context *ctx, struct handlebars_value * value, struct yaml_document_s * document, struct yaml_node_s * node, int depth)
 {
     if( depth > HANDLEBARS_YAML_MAX_DEPTH ) {
@@ -89,6 +94,8 @@ static void init_yaml_node(struct handlebars_context *ctx, struct handlebars_val
                 handlebars_value_boolean(value, 1);
             } else if( 0 == strcmp((const char *) node->data.scalar.value, "false") ) {
                 handlebars_value_boolean(value, 0);
+            } else if( is_yaml_null((const char *) node->data.scalar.value) ) {
+                handlebars_value_null(value);
             } else {
                 long lval;
                 double dval;
-- 
2.43.0


From 688dc0e30a81eb90ff91154bfc504bfa966c656d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:31 +0000
Subject: [PATCH 068/102] fix: the YAML strings nan, inf and infinity were read
 as floats

---
 src/handlebars_yaml.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_yaml.c b/src/handlebars_yaml.c
index 122fef0..00d3a51 100644
--- a/src/handlebars_yaml.c
+++ b/src/handlebars_yaml.c
@@ -105,9 +105,9 @@ static void init_yaml_node(struct handlebars_context *ctx, struct handlebars_val
                     handlebars_value_integer(value, lval);
                     goto done;
                 }
-                // Double
+                // Double, but not one of the words strtod() takes for one (inf, nan, infinity)
                 dval = strtod((const char *) node->data.scalar.value, &end);
-                if( !*end ) {
+                if( !*end && !strpbrk((const char *) node->data.scalar.value, "nN") ) {
                     handlebars_value_float(value, dval);
                     goto done;
                 }
-- 
2.43.0


From ffd216d14bc1266319eb516a1799e57c1c3728df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:31 +0000
Subject: [PATCH 069/102] fix: YAML integers that do not fit a long were
 silently changed to LONG_MAX

---
 src/handlebars_yaml.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_yaml.c b/src/handlebars_yaml.c
index 00d3a51..af699b7 100644
--- a/src/handlebars_yaml.c
+++ b/src/handlebars_yaml.c
@@ -19,6 +19,7 @@
 #include "config.h"
 #endif
 
+#include <errno.h>
 #include <yaml.h>
 
 #include "handlebars.h"
@@ -100,8 +101,9 @@ static void init_yaml_node(struct handlebars_context *ctx, struct handlebars_val
                 long lval;
                 double dval;
                 // Long
+                errno = 0;
                 lval = strtol((const char *) node->data.scalar.value, &end, 10);
-                if( !*end ) {
+                if( !*end && errno != ERANGE ) {
                     handlebars_value_integer(value, lval);
                     goto done;
                 }
-- 
2.43.0


From 55b6f505544ead21e62aa86e74a215f475c030d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:31 +0000
Subject: [PATCH 070/102] fix: the error for YAML data without a document had
 (null) for a message

---
 src/handlebars_yaml.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_yaml.c b/src/handlebars_yaml.c
index af699b7..b6ab77b 100644
--- a/src/handlebars_yaml.c
+++ b/src/handlebars_yaml.c
@@ -144,7 +144,7 @@ void handlebars_value_init_yaml_string(struct handlebars_context * ctx, struct h
     if( node ) {
         handlebars_value_init_yaml_node(ctx, value, &yctx->document, node);
     } else {
-        handlebars_throw(ctx, HANDLEBARS_ERROR, "YAML Parse Error: [%d] %s", yctx->parser.error, yctx->parser.problem);
+        handlebars_throw(ctx, HANDLEBARS_ERROR, "YAML Parse Error: [%d] %s", yctx->parser.error, yctx->parser.problem ? yctx->parser.problem : "empty document");
     }
     handlebars_talloc_free(yctx);
 }
-- 
2.43.0


From bff91e46cf234ab160b5a16b7c5df22dcbe2fed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:53 +0000
Subject: [PATCH 071/102] fix: reading YAML data crashed when libyaml ran out
 of memory

---
 src/handlebars_yaml.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_yaml.c b/src/handlebars_yaml.c
index b6ab77b..705fe95 100644
--- a/src/handlebars_yaml.c
+++ b/src/handlebars_yaml.c
@@ -137,14 +137,22 @@ void handlebars_value_init_yaml_string(struct handlebars_context * ctx, struct h
     struct _yaml_ctx * yctx = handlebars_talloc_zero(ctx, struct _yaml_ctx);
     HANDLEBARS_MEMCHECK(yctx, ctx);
     talloc_set_destructor(yctx, _yaml_ctx_dtor);
-    yaml_parser_initialize(&yctx->parser);
+    if( !yaml_parser_initialize(&yctx->parser) ) {
+        handlebars_throw(ctx, HANDLEBARS_NOMEM, HANDLEBARS_MEMCHECK_MSG);
+    }
     yaml_parser_set_input_string(&yctx->parser, (unsigned char *) yaml, strlen(yaml));
-    yaml_parser_load(&yctx->parser, &yctx->document);
+    if( !yaml_parser_load(&yctx->parser, &yctx->document) ) {
+        // libyaml does not say so each time it runs out of memory
+        if( yctx->parser.error == YAML_MEMORY_ERROR || yctx->parser.error == YAML_NO_ERROR ) {
+            handlebars_throw(ctx, HANDLEBARS_NOMEM, HANDLEBARS_MEMCHECK_MSG);
+        }
+        handlebars_throw(ctx, HANDLEBARS_ERROR, "YAML Parse Error: [%d] %s", yctx->parser.error, yctx->parser.problem);
+    }
     yaml_node_t * node = yaml_document_get_root_node(&yctx->document);
     if( node ) {
         handlebars_value_init_yaml_node(ctx, value, &yctx->document, node);
     } else {
-        handlebars_throw(ctx, HANDLEBARS_ERROR, "YAML Parse Error: [%d] %s", yctx->parser.error, yctx->parser.problem ? yctx->parser.problem : "empty document");
+        handlebars_throw(ctx, HANDLEBARS_ERROR, "YAML Parse Error: [%d] empty document", yctx->parser.error);
     }
     handlebars_talloc_free(yctx);
 }
-- 
2.43.0


From f59713e21dc2ab4f2d102792f3f1644d8f8e5fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:53 +0000
Subject: [PATCH 072/102] fix: JSON data was read as null when json-c ran out
 of memory

---
 src/handlebars_json.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/handlebars_json.c b/src/handlebars_json.c
index f354aaf..c214c35 100644
--- a/src/handlebars_json.c
+++ b/src/handlebars_json.c
@@ -327,6 +327,7 @@ static struct json_object *json_tokener_parse_verbose_length(const char *str, si
 
 	tok = json_tokener_new();
 	if (!tok) {
+		*error = json_tokener_error_memory;
 		return NULL;
     }
 
@@ -350,6 +351,8 @@ void handlebars_value_init_json_stringl(struct handlebars_context *ctx, struct h
     if( parse_err == json_tokener_success ) {
         handlebars_value_init_json_object(ctx, value, result);
         json_object_put(result);
+    } else if( parse_err == json_tokener_error_memory ) {
+        handlebars_throw(ctx, HANDLEBARS_NOMEM, HANDLEBARS_MEMCHECK_MSG);
     } else {
         handlebars_throw(ctx, HANDLEBARS_ERROR, "JSON Parse error: %s", json_tokener_error_desc(parse_err));
     }
-- 
2.43.0


From 36a23afdaa38211399b5d39cd0bf1015e350c279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:13 +0000
Subject: [PATCH 073/102] fix: JSON data was never released when converting it
 ran out of memory

---
 src/handlebars_json.c | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/handlebars_json.c b/src/handlebars_json.c
index c214c35..51e5018 100644
--- a/src/handlebars_json.c
+++ b/src/handlebars_json.c
@@ -305,13 +305,11 @@ void handlebars_value_init_json_object(struct handlebars_context * ctx, struct h
 
         case json_type_object:
         case json_type_array:
-            // Increment refcount
-            json_object_get(json);
-
             obj = handlebars_talloc(ctx, struct handlebars_json);
             HANDLEBARS_MEMCHECK(obj, ctx);
             handlebars_user_init((struct handlebars_user *) obj, ctx, &handlebars_value_hbs_json_handlers);
-            obj->object = json;
+            // Increment refcount
+            obj->object = json_object_get(json);
             talloc_set_destructor(obj, handlebars_json_dtor);
             handlebars_value_user(value, (struct handlebars_user *) obj);
             break;
@@ -344,14 +342,32 @@ static struct json_object *json_tokener_parse_verbose_length(const char *str, si
 	return obj;
 }
 
+// Releases the parsed object with the context if converting it fails
+struct handlebars_json_holder {
+    struct json_object * object;
+};
+
+static int handlebars_json_holder_dtor(struct handlebars_json_holder * holder)
+{
+    json_object_put(holder->object);
+    return 0;
+}
+
 void handlebars_value_init_json_stringl(struct handlebars_context *ctx, struct handlebars_value * value, const char * json, size_t length)
 {
     enum json_tokener_error parse_err = json_tokener_success;
-    struct json_object * result = json_tokener_parse_verbose_length(json, length, &parse_err);
+    struct handlebars_json_holder * holder = handlebars_talloc_zero(ctx, struct handlebars_json_holder);
+    HANDLEBARS_MEMCHECK(holder, ctx);
+    holder->object = json_tokener_parse_verbose_length(json, length, &parse_err);
     if( parse_err == json_tokener_success ) {
-        handlebars_value_init_json_object(ctx, value, result);
-        json_object_put(result);
-    } else if( parse_err == json_tokener_error_memory ) {
+        talloc_set_destructor(holder, handlebars_json_holder_dtor);
+        handlebars_value_init_json_object(ctx, value, holder->object);
+        handlebars_talloc_free(holder);
+        return;
+    }
+
+    handlebars_talloc_free(holder);
+    if( parse_err == json_tokener_error_memory ) {
         handlebars_throw(ctx, HANDLEBARS_NOMEM, HANDLEBARS_MEMCHECK_MSG);
     } else {
         handlebars_throw(ctx, HANDLEBARS_ERROR, "JSON Parse error: %s", json_tokener_error_desc(parse_err));
-- 
2.43.0


From 2473b746f206b5b919d8cebb5166e46f74e63b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:09 +0000
Subject: [PATCH 074/102] fix: a hash with more pairs than it was created for
 was used after it was freed

---
 src/handlebars_vm.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 98c8999..551b5f7 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -632,9 +632,8 @@ ACCEPT_FUNCTION(assign_to_hash)
     assert(opcode->op1.type == handlebars_operand_type_string);
     assert(handlebars_value_get_type(hash) == HANDLEBARS_VALUE_TYPE_MAP);
 
-    struct handlebars_map * map = handlebars_value_get_map(hash);
-    map = handlebars_map_update(map, opcode->op1.data.string.string, value);
-    handlebars_value_map(hash, map);
+    // The map may have to grow, which replaces the one the value holds
+    handlebars_value_map_update(hash, opcode->op1.data.string.string, value);
 
     PUSH(vm->hashStack, hash);
 
-- 
2.43.0


From 2f83ed4eef8aa463de202c21995448551b22bc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:19 +0000
Subject: [PATCH 075/102] fix: the ignore_standalone flag had no effect

---
 src/handlebars_whitespace.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_whitespace.c b/src/handlebars_whitespace.c
index 01ca646..35e272b 100644
--- a/src/handlebars_whitespace.c
+++ b/src/handlebars_whitespace.c
@@ -31,6 +31,7 @@
 
 #include "handlebars_ast.h"
 #include "handlebars_ast_list.h"
+#include "handlebars_compiler.h"
 #include "handlebars_memory.h"
 #include "handlebars_parser.h"
 #include "handlebars_parser_private.h"
@@ -203,7 +204,7 @@ static inline void handlebars_whitespace_accept_program(struct handlebars_parser
     struct handlebars_ast_list * statements = program->node.program.statements;
     struct handlebars_ast_list_item * item;
     struct handlebars_ast_list_item * tmp;
-    bool do_standalone = true; //!(parser->flags & handlebars_compiler_flag_ignore_standalone);
+    bool do_standalone = !(parser->flags & handlebars_compiler_flag_ignore_standalone);
 
     parser->whitespace_root_seen = 1;
 
@@ -319,7 +320,7 @@ static inline void handlebars_whitespace_accept_block(struct handlebars_parser *
     struct handlebars_ast_node * firstInverse;
     struct handlebars_ast_node * lastInverse;
     unsigned strip = 0;
-    bool do_standalone = true; //!(parser->flags & handlebars_compiler_flag_ignore_standalone);
+    bool do_standalone = !(parser->flags & handlebars_compiler_flag_ignore_standalone);
 
     if( block->node.block.program ) {
         handlebars_whitespace_accept(parser, block->node.block.program);
-- 
2.43.0


From 554147bc6005c91b1bf8c93e46f3667a10892522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:33 +0000
Subject: [PATCH 076/102] fix: whitespace control and standalone lines were
 ignored in and around partial blocks

---
 src/handlebars_whitespace.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_whitespace.c b/src/handlebars_whitespace.c
index 35e272b..2b88acf 100644
--- a/src/handlebars_whitespace.c
+++ b/src/handlebars_whitespace.c
@@ -261,7 +261,7 @@ static inline void handlebars_whitespace_accept_program(struct handlebars_parser
             }
         }
         if( do_standalone && open_standalone ) {
-            if( current->type == HANDLEBARS_AST_NODE_BLOCK ) {
+            if( current->type == HANDLEBARS_AST_NODE_BLOCK || current->type == HANDLEBARS_AST_NODE_PARTIAL_BLOCK ) {
                 if( current->node.block.program ) {
                     assert(current->node.block.program->type == HANDLEBARS_AST_NODE_PROGRAM);
                     handlebars_whitespace_omit_right(current->node.block.program->node.program.statements, NULL, 0);
@@ -274,7 +274,7 @@ static inline void handlebars_whitespace_accept_program(struct handlebars_parser
         }
         if( do_standalone && close_standalone ) {
             handlebars_whitespace_omit_right(statements, current, 0);
-            if( current->type == HANDLEBARS_AST_NODE_BLOCK ) {
+            if( current->type == HANDLEBARS_AST_NODE_BLOCK || current->type == HANDLEBARS_AST_NODE_PARTIAL_BLOCK ) {
                 if( current->node.block.inverse ) {
                     assert(current->node.block.inverse->type == HANDLEBARS_AST_NODE_PROGRAM);
                     handlebars_whitespace_omit_left(current->node.block.inverse->node.program.statements, NULL, 0);
@@ -496,6 +496,7 @@ void handlebars_whitespace_accept(struct handlebars_parser * parser,
 
     switch( node->type ) {
         case HANDLEBARS_AST_NODE_BLOCK:
+        case HANDLEBARS_AST_NODE_PARTIAL_BLOCK:
             return handlebars_whitespace_accept_block(parser, node);
         case HANDLEBARS_AST_NODE_MUSTACHE:
             return handlebars_whitespace_accept_mustache(parser, node);
@@ -514,7 +515,6 @@ void handlebars_whitespace_accept(struct handlebars_parser * parser,
         case HANDLEBARS_AST_NODE_CONTENT:
         case HANDLEBARS_AST_NODE_HASH:
         case HANDLEBARS_AST_NODE_HASH_PAIR:
-        case HANDLEBARS_AST_NODE_PARTIAL_BLOCK:
         case HANDLEBARS_AST_NODE_NUL:
         case HANDLEBARS_AST_NODE_NUMBER:
         case HANDLEBARS_AST_NODE_PATH:
-- 
2.43.0


From c95c2ad9063d8c00f55701cc8a2b3c93dd358014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:17 +0000
Subject: [PATCH 077/102] fix: a helper was reported as undefined in strict
 mode

---
 src/handlebars_vm.c | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 551b5f7..36b55da 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -1096,6 +1096,28 @@ ACCEPT_FUNCTION(lookup_data)
     HANDLEBARS_VALUE_UNDECL(rv);
 }
 
+// Whether the path being looked up is invoked next and names a helper, which takes precedence over the context
+static bool names_helper(struct handlebars_vm * vm, struct handlebars_opcode * opcode)
+{
+    struct handlebars_opcode * next = opcode + 1;
+    struct handlebars_string * name;
+    HANDLEBARS_VALUE_DECL(rv);
+    bool found;
+
+    if( next->type == handlebars_opcode_type_invoke_ambiguous ) {
+        name = next->op1.data.string.string;
+    } else if( next->type == handlebars_opcode_type_invoke_helper && next->op3.data.boolval ) {
+        name = next->op2.data.string.string;
+    } else {
+        return false;
+    }
+
+    found = lookup_helper(vm, name, rv) != NULL;
+
+    HANDLEBARS_VALUE_UNDECL(rv);
+    return found;
+}
+
 ACCEPT_FUNCTION(lookup_on_context)
 {
     HANDLEBARS_VALUE_DECL(empty_value);
@@ -1150,6 +1172,11 @@ ACCEPT_FUNCTION(lookup_on_context)
         done_and_null:
         if( require_terminal ) {
             done_and_err:
+            if( names_helper(vm, opcode) ) {
+                // It is the helper that is invoked
+                value = empty_value;
+                goto done;
+            }
             handlebars_throw_ex(
                 CONTEXT,
                 HANDLEBARS_ERROR,
@@ -1163,6 +1190,8 @@ ACCEPT_FUNCTION(lookup_on_context)
         }
     }
 
+done:
+
     PUSH(vm->stack, value);
 
     HANDLEBARS_VALUE_UNDECL(rv2);
-- 
2.43.0


From f0347ae415180150e6af42cefde760e503a6cf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:17 +0000
Subject: [PATCH 078/102] fix: the output of an empty partial was indented

---
 src/handlebars_string.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index a372d0c..d1ff537 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -838,6 +838,12 @@ struct handlebars_string * handlebars_string_indent_append(
     size_t i;
     char tmp[2] = "\0";
 
+    // There are no lines to indent
+    if( str_len == 0 ) {
+        handlebars_string_delref(input_string);
+        return append_to_string;
+    }
+
     if( endsInLine ) {
         str_len--;
     }
-- 
2.43.0


From ad01cc2a20f9207bb1fd5b12ac1544f51580d742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:29 +0000
Subject: [PATCH 079/102] fix: a null JSON member was reported as undefined in
 strict mode

---
 src/handlebars_json.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/handlebars_json.c b/src/handlebars_json.c
index 51e5018..f32ab5e 100644
--- a/src/handlebars_json.c
+++ b/src/handlebars_json.c
@@ -145,8 +145,9 @@ static enum handlebars_value_type hbs_json_type(struct handlebars_value * value)
 static struct handlebars_value * hbs_json_map_find(struct handlebars_value * value, struct handlebars_string * key, struct handlebars_value * rv)
 {
     struct handlebars_json * intern = GET_INTERN_V(value);
-    struct json_object * item = json_object_object_get(intern->object, hbs_str_val(key));
-    if( item == NULL ) {
+    struct json_object * item = NULL;
+    // A null member is NULL, like a member that is not there
+    if( !json_object_object_get_ex(intern->object, hbs_str_val(key), &item) ) {
         return NULL;
     }
     handlebars_value_init_json_object(intern->user.ctx, rv, item);
@@ -156,10 +157,11 @@ static struct handlebars_value * hbs_json_map_find(struct handlebars_value * val
 static struct handlebars_value * hbs_json_array_find(struct handlebars_value * value, size_t index, struct handlebars_value * rv)
 {
     struct handlebars_json * intern = GET_INTERN_V(value);
-    struct json_object * item = json_object_array_get_idx(intern->object, (int) index);
-    if( item == NULL ) {
+    // A null element is NULL, like an element that is not there
+    if( index >= (size_t) json_object_array_length(intern->object) ) {
         return NULL;
     }
+    struct json_object * item = json_object_array_get_idx(intern->object, index);
     handlebars_value_init_json_object(intern->user.ctx, rv, item);
     return rv;
 }
-- 
2.43.0


From 21e0048fbe94060698c369bb960eb9acf4eaf2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:08 +0000
Subject: [PATCH 080/102] fix: strip the lines of standalone raw block tags
 inside the block as well

---
 src/handlebars_whitespace.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_whitespace.c b/src/handlebars_whitespace.c
index 2b88acf..b7396ff 100644
--- a/src/handlebars_whitespace.c
+++ b/src/handlebars_whitespace.c
@@ -261,7 +261,8 @@ static inline void handlebars_whitespace_accept_program(struct handlebars_parser
             }
         }
         if( do_standalone && open_standalone ) {
-            if( current->type == HANDLEBARS_AST_NODE_BLOCK || current->type == HANDLEBARS_AST_NODE_PARTIAL_BLOCK ) {
+            if( current->type == HANDLEBARS_AST_NODE_BLOCK || current->type == HANDLEBARS_AST_NODE_PARTIAL_BLOCK ||
+                    current->type == HANDLEBARS_AST_NODE_RAW_BLOCK ) {
                 if( current->node.block.program ) {
                     assert(current->node.block.program->type == HANDLEBARS_AST_NODE_PROGRAM);
                     handlebars_whitespace_omit_right(current->node.block.program->node.program.statements, NULL, 0);
@@ -274,7 +275,8 @@ static inline void handlebars_whitespace_accept_program(struct handlebars_parser
         }
         if( do_standalone && close_standalone ) {
             handlebars_whitespace_omit_right(statements, current, 0);
-            if( current->type == HANDLEBARS_AST_NODE_BLOCK || current->type == HANDLEBARS_AST_NODE_PARTIAL_BLOCK ) {
+            if( current->type == HANDLEBARS_AST_NODE_BLOCK || current->type == HANDLEBARS_AST_NODE_PARTIAL_BLOCK ||
+                    current->type == HANDLEBARS_AST_NODE_RAW_BLOCK ) {
                 if( current->node.block.inverse ) {
                     assert(current->node.block.inverse->type == HANDLEBARS_AST_NODE_PROGRAM);
                     handlebars_whitespace_omit_left(current->node.block.inverse->node.program.statements, NULL, 0);
-- 
2.43.0


From baf4f51f5e44eaf2620e211c5776ddab0ebb61cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:36 +0000
Subject: [PATCH 081/102] fix: JSON data followed by other text was accepted

---
 src/handlebars_json.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_json.c b/src/handlebars_json.c
index f32ab5e..bbed3f0 100644
--- a/src/handlebars_json.c
+++ b/src/handlebars_json.c
@@ -333,7 +333,18 @@ static struct json_object *json_tokener_parse_verbose_length(const char *str, si
 
 	obj = json_tokener_parse_ex(tok, str, length);
 	*error = tok->err;
-	if (tok->err != json_tokener_success) {
+	if (*error == json_tokener_success) {
+		// json-c stops at the end of the first value
+		size_t end = json_tokener_get_parse_end(tok);
+		while (end < length && (str[end] == ' ' || str[end] == '\t' || str[end] == '\r' || str[end] == '\n')) {
+			end++;
+		}
+		// the terminating NUL may be included in the length
+		if (end < length && !(str[end] == 0 && end + 1 == length)) {
+			*error = json_tokener_error_parse_unexpected;
+		}
+	}
+	if (*error != json_tokener_success) {
 		if (obj != NULL) {
 			json_object_put(obj);
         }
-- 
2.43.0


From e24743fa193b477eafb6f8295d0e12d1ffbfebfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:51 +0000
Subject: [PATCH 082/102] fix: JSON data that is a number or literal was
 rejected without a terminator

---
 src/handlebars_json.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_json.c b/src/handlebars_json.c
index bbed3f0..0fd011c 100644
--- a/src/handlebars_json.c
+++ b/src/handlebars_json.c
@@ -324,6 +324,7 @@ static struct json_object *json_tokener_parse_verbose_length(const char *str, si
 {
 	struct json_tokener *tok;
 	struct json_object *obj;
+	size_t end;
 
 	tok = json_tokener_new();
 	if (!tok) {
@@ -332,10 +333,14 @@ static struct json_object *json_tokener_parse_verbose_length(const char *str, si
     }
 
 	obj = json_tokener_parse_ex(tok, str, length);
+	end = json_tokener_get_parse_end(tok);
+	if (tok->err == json_tokener_continue) {
+		// only the end of the text shows that a number or a literal is complete
+		obj = json_tokener_parse_ex(tok, "", 1);
+	}
 	*error = tok->err;
 	if (*error == json_tokener_success) {
 		// json-c stops at the end of the first value
-		size_t end = json_tokener_get_parse_end(tok);
 		while (end < length && (str[end] == ' ' || str[end] == '\t' || str[end] == '\r' || str[end] == '\n')) {
 			end++;
 		}
-- 
2.43.0


From 8133750a1afa2e5db2f4340e4cd4a1b2bbe65041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:02 +0000
Subject: [PATCH 083/102] fix: YAML data followed by malformed text was
 accepted

---
 src/handlebars_yaml.c | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/handlebars_yaml.c b/src/handlebars_yaml.c
index 705fe95..6398477 100644
--- a/src/handlebars_yaml.c
+++ b/src/handlebars_yaml.c
@@ -132,6 +132,17 @@ void handlebars_value_init_yaml_node(struct handlebars_context *ctx, struct hand
     init_yaml_node(ctx, value, document, node, 0);
 }
 
+static void load_yaml_document(struct handlebars_context * ctx, yaml_parser_t * parser, yaml_document_t * document)
+{
+    if( !yaml_parser_load(parser, document) ) {
+        // libyaml does not say so each time it runs out of memory
+        if( parser->error == YAML_MEMORY_ERROR || parser->error == YAML_NO_ERROR ) {
+            handlebars_throw(ctx, HANDLEBARS_NOMEM, HANDLEBARS_MEMCHECK_MSG);
+        }
+        handlebars_throw(ctx, HANDLEBARS_ERROR, "YAML Parse Error: [%d] %s", parser->error, parser->problem);
+    }
+}
+
 void handlebars_value_init_yaml_string(struct handlebars_context * ctx, struct handlebars_value * value, const char * yaml)
 {
     struct _yaml_ctx * yctx = handlebars_talloc_zero(ctx, struct _yaml_ctx);
@@ -141,18 +152,20 @@ void handlebars_value_init_yaml_string(struct handlebars_context * ctx, struct h
         handlebars_throw(ctx, HANDLEBARS_NOMEM, HANDLEBARS_MEMCHECK_MSG);
     }
     yaml_parser_set_input_string(&yctx->parser, (unsigned char *) yaml, strlen(yaml));
-    if( !yaml_parser_load(&yctx->parser, &yctx->document) ) {
-        // libyaml does not say so each time it runs out of memory
-        if( yctx->parser.error == YAML_MEMORY_ERROR || yctx->parser.error == YAML_NO_ERROR ) {
-            handlebars_throw(ctx, HANDLEBARS_NOMEM, HANDLEBARS_MEMCHECK_MSG);
-        }
-        handlebars_throw(ctx, HANDLEBARS_ERROR, "YAML Parse Error: [%d] %s", yctx->parser.error, yctx->parser.problem);
-    }
+    load_yaml_document(ctx, &yctx->parser, &yctx->document);
     yaml_node_t * node = yaml_document_get_root_node(&yctx->document);
     if( node ) {
         handlebars_value_init_yaml_node(ctx, value, &yctx->document, node);
     } else {
         handlebars_throw(ctx, HANDLEBARS_ERROR, "YAML Parse Error: [%d] empty document", yctx->parser.error);
     }
+    // Only the first document is used, but an error after it is an error of the text as well
+    bool more;
+    do {
+        yaml_document_t next;
+        load_yaml_document(ctx, &yctx->parser, &next);
+        more = yaml_document_get_root_node(&next) != NULL;
+        yaml_document_delete(&next);
+    } while( more );
     handlebars_talloc_free(yctx);
 }
-- 
2.43.0


From f30a4642455c8c749c6ca79dfa5fe4b572f52411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:40 +0000
Subject: [PATCH 084/102] fix: three opening brackets in content were printed
 with a backslash when other delimiters were set

---
 src/handlebars_delimiters.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_delimiters.c b/src/handlebars_delimiters.c
index ea1cd10..5d9589a 100644
--- a/src/handlebars_delimiters.c
+++ b/src/handlebars_delimiters.c
@@ -114,9 +114,11 @@ struct handlebars_string * handlebars_preprocess_delimiters(
                     state = 2; goto state2;
                 }
 
-                // Escape the bracket if our current custom delims aren't brackets
+                // Escape the brackets, both of them at once, if our current custom delims aren't brackets
                 if( i >= 2 && *p == '{' && *(p + 1) == '{' && !starts_with_bracket ) {
                     append("\\", 1);
+                    append(p, 1);
+                    move_forward(1);
                 }
 
                 // This is an escape
-- 
2.43.0


From 29297492772e3884ff225ecd4061ca554a9ac86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:18 +0000
Subject: [PATCH 085/102] fix: brackets in content were taken for tags when
 delimiters that begin with a bracket were set

---
 src/handlebars_delimiters.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/handlebars_delimiters.c b/src/handlebars_delimiters.c
index 5d9589a..34a7a2d 100644
--- a/src/handlebars_delimiters.c
+++ b/src/handlebars_delimiters.c
@@ -68,14 +68,14 @@ struct handlebars_string * handlebars_preprocess_delimiters(
     const char *po = NULL;
     const char *pc = NULL;
     const char *pce = NULL;
-    int starts_with_bracket = 0;
+    bool brackets = true;
 
     // Initialize/duplicate open/close
     if( open == NULL ) {
         open = handlebars_string_ctor(ctx, HBS_STRL("{{"));
     } else {
         open = handlebars_string_copy_ctor(ctx, open);
-        starts_with_bracket = hbs_str_val(open)[0] == '{';
+        brackets = hbs_str_eq_strl(open, HBS_STRL("{{"));
     }
     if( close == NULL ) {
         close = handlebars_string_ctor(ctx, HBS_STRL("}}"));
@@ -115,7 +115,7 @@ struct handlebars_string * handlebars_preprocess_delimiters(
                 }
 
                 // Escape the brackets, both of them at once, if our current custom delims aren't brackets
-                if( i >= 2 && *p == '{' && *(p + 1) == '{' && !starts_with_bracket ) {
+                if( i >= 2 && *p == '{' && *(p + 1) == '{' && !brackets ) {
                     append("\\", 1);
                     append(p, 1);
                     move_forward(1);
@@ -205,7 +205,7 @@ struct handlebars_string * handlebars_preprocess_delimiters(
                 open = new_open;
                 close = new_close;
                 new_open = new_close = NULL;
-                starts_with_bracket = hbs_str_val(open)[0] == '{';
+                brackets = hbs_str_eq_strl(open, HBS_STRL("{{"));
 
 #if defined(YYDEBUG)
                 fprintf(stderr, "Delimiter preprocessor: New delimiters: \"%.*s\", \"%.*s\"\n", (int) hbs_str_len(open), hbs_str_val(open), (int) hbs_str_len(close), hbs_str_val(close));
-- 
2.43.0


From eeea20e00e6c507abfcc19a4337b7b0ae14f3f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:43 +0000
Subject: [PATCH 086/102] fix: an unclosed tag was accepted when other
 delimiters were set

---
 src/handlebars_delimiters.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/handlebars_delimiters.c b/src/handlebars_delimiters.c
index 34a7a2d..432413c 100644
--- a/src/handlebars_delimiters.c
+++ b/src/handlebars_delimiters.c
@@ -105,13 +105,15 @@ struct handlebars_string * handlebars_preprocess_delimiters(
                     state = 1; goto state1;
                 }
 
-                // Remaining size needs to be at least:
-                // hbs_str_len(open) + hbs_str_len(close) + 1
-                if( (size_t) i >= hbs_str_len(open) + hbs_str_len(close) + 1 && strncmp(p, hbs_str_val(open), hbs_str_len(open)) == 0 ) {
+                if( (size_t) i >= hbs_str_len(open) && strncmp(p, hbs_str_val(open), hbs_str_len(open)) == 0 ) {
                     // We are going into a regular tag
                     append("{{", 2);
                     move_forward(hbs_str_len(open));
-                    state = 2; goto state2;
+                    state = 2;
+                    if( i <= 0 ) {
+                        break;
+                    }
+                    goto state2;
                 }
 
                 // Escape the brackets, both of them at once, if our current custom delims aren't brackets
@@ -236,8 +238,8 @@ struct handlebars_string * handlebars_preprocess_delimiters(
                     // Ending
                     append("}}", 2);
                     move_forward(hbs_str_len(close));
+                    state = 0;
                     if( i > 0 ) {
-                        state = 0;
                         goto state0;
                     }
                 } else {
@@ -247,6 +249,11 @@ struct handlebars_string * handlebars_preprocess_delimiters(
         }
     }
 
+    // The parser would accept the brackets as the end of the tag
+    if( state == 2 && !brackets ) {
+        handlebars_throw(ctx, HANDLEBARS_ERROR, "Unclosed tag, expected \"%.*s\"", (int) hbs_str_len(close), hbs_str_val(close));
+    }
+
 #if defined(YYDEBUG)
     fprintf(stderr, "Delimiter preprocessor: Processed template: %.*s\n", (int) hbs_str_len(new_tmpl), hbs_str_val(new_tmpl));
 #endif
-- 
2.43.0


From 122fb3797060698cfbdac091b66823a0a9628b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:55 +0000
Subject: [PATCH 087/102] fix: the template a mustache-style lambda returns was
 not rendered in the current context

---
 src/handlebars_vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 36b55da..76f22f8 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -551,7 +551,7 @@ static struct handlebars_value * invoke_mustache_style_lambda_closure(HANDLEBARS
 
     if (!handlebars_value_is_empty(lambda_result)) {
         struct handlebars_string * tmpl = handlebars_value_to_string(lambda_result, CONTEXT);
-        struct handlebars_string * rv_str = execute_template(vm, tmpl, callable, NULL, 0, use_delimiters);
+        struct handlebars_string * rv_str = execute_template(vm, tmpl, TOP(vm->contextStack), NULL, 0, use_delimiters);
         handlebars_value_str(rv, rv_str);
     }
 
-- 
2.43.0


From 29c2cf370da0a26b9c036f5092953b0d7fb24a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:23 +0000
Subject: [PATCH 088/102] fix: a subexpression as the name of a partial lost
 its parentheses when printed as a template

---
 src/handlebars_ast_printer.c | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/handlebars_ast_printer.c b/src/handlebars_ast_printer.c
index 8eafb94..d2c65b5 100644
--- a/src/handlebars_ast_printer.c
+++ b/src/handlebars_ast_printer.c
@@ -555,12 +555,6 @@ static void _handlebars_ast_to_string_path_params_hash(
     struct handlebars_ast_node * path, struct handlebars_ast_list * params,
     struct handlebars_ast_node * hash, struct handlebars_ast_printer_context * ctx)
 {
-    int depth = ctx->padding++;
-
-    if (depth > 0) {
-        __APPENDS("(");
-    }
-
     if( path ) {
         __PRINT(path);
     }
@@ -584,12 +578,6 @@ static void _handlebars_ast_to_string_path_params_hash(
         __APPENDS(" ");
         __PRINT(hash);
     }
-
-    if (depth > 0) {
-        __APPENDS(")");
-    }
-
-    ctx->padding--;
 }
 
 
@@ -807,8 +795,10 @@ static void _handlebars_ast_to_string_comment(struct handlebars_ast_node * ast_n
 static void _handlebars_ast_to_string_sexpr(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
 {
     // Sexpr
+    __APPENDS("(");
     _handlebars_ast_to_string_path_params_hash(ast_node->node.sexpr.path,
             ast_node->node.sexpr.params, ast_node->node.sexpr.hash, ctx);
+    __APPENDS(")");
 }
 
 static void _handlebars_ast_to_string_string(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
-- 
2.43.0


From a900d340fa70692677e1ea91bb6dbbd63ea212c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:32 +0000
Subject: [PATCH 089/102] fix: the template 0 returned by a mustache-style
 lambda was not rendered

---
 src/handlebars_vm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 76f22f8..b9c88be 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -549,7 +549,8 @@ static struct handlebars_value * invoke_mustache_style_lambda_closure(HANDLEBARS
 
     handlebars_value_call(callable, 1, lambda_argv, options, vm, lambda_result);
 
-    if (!handlebars_value_is_empty(lambda_result)) {
+    // The text "0" is empty as a condition, but it is a template
+    if (handlebars_value_get_type(lambda_result) == HANDLEBARS_VALUE_TYPE_STRING || !handlebars_value_is_empty(lambda_result)) {
         struct handlebars_string * tmpl = handlebars_value_to_string(lambda_result, CONTEXT);
         struct handlebars_string * rv_str = execute_template(vm, tmpl, TOP(vm->contextStack), NULL, 0, use_delimiters);
         handlebars_value_str(rv, rv_str);
-- 
2.43.0


From 420e794c67c7b6e20064554307c67ebb5a65a16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:31 +0000
Subject: [PATCH 090/102] fix: a string that begins with 0 and a NUL byte was
 taken for empty

---
 src/handlebars_value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index f1d479c..21393c5 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -247,7 +247,7 @@ bool handlebars_value_get_boolval(struct handlebars_value * value)
         case HANDLEBARS_VALUE_TYPE_INTEGER:
             return value->v.lval != 0;
         case HANDLEBARS_VALUE_TYPE_STRING:
-            return hbs_str_len(value->v.string) != 0 && strcmp(hbs_str_val(value->v.string), "0") != 0;
+            return hbs_str_len(value->v.string) != 0 && !hbs_str_eq_strl(value->v.string, HBS_STRL("0"));
         case HANDLEBARS_VALUE_TYPE_ARRAY:
             return handlebars_stack_count(value->v.stack) != 0;
         case HANDLEBARS_VALUE_TYPE_MAP:
-- 
2.43.0


From 491588a7d73ed44016f027832bac46122a8f59a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:31 +0000
Subject: [PATCH 091/102] fix: #if took includeZero=false for includeZero=true

---
 src/handlebars_helpers.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_helpers.c b/src/handlebars_helpers.c
index 0b8f144..907dc09 100644
--- a/src/handlebars_helpers.c
+++ b/src/handlebars_helpers.c
@@ -296,7 +296,8 @@ struct handlebars_value * handlebars_builtin_if(HANDLEBARS_HELPER_ARGS)
         program = options->program;
     } else if( handlebars_value_get_type(conditional) == HANDLEBARS_VALUE_TYPE_INTEGER &&
             handlebars_value_get_intval(conditional) == 0 &&
-            NULL != handlebars_value_map_str_find(options->hash, HBS_STRL("includeZero"), rv2) ) {
+            NULL != handlebars_value_map_str_find(options->hash, HBS_STRL("includeZero"), rv2) &&
+            !handlebars_value_is_empty(rv2) ) {
         program = options->program;
     } else {
         program = options->inverse;
-- 
2.43.0


From 03588af18caa5070e814dd2dec4aed232749a98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:22 +0000
Subject: [PATCH 092/102] fix: zero written as 00, -0 or 0.0 was not empty

---
 src/handlebars_compiler.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index 1bbf34e..364d82f 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -1259,16 +1259,11 @@ static inline void handlebars_compiler_accept_number(
     assert(number != NULL);
     assert(number->type == HANDLEBARS_AST_NODE_NUMBER);
 
-    if (hbs_str_eq_strl(val, HBS_STRL("0"))) {
-    	__OPL(push_literal, 0);
-        return;
-    }
-
     // Convert to float and long
     fv = strtod(hbs_str_val(val), NULL);
     lv = strtol(hbs_str_val(val), NULL, 10);
 
-    if( fv && lv && fv == (double) lv ) {
+    if( fv == (double) lv ) {
     	// It's a long - @todo do we need to do float too?
     	__OPL(push_literal, lv);
     } else {
-- 
2.43.0


From c401bbfe8b62a4ffecfa9b2a6ac87d5e98a55adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:52 +0000
Subject: [PATCH 093/102] fix: columns of errors and locations were not counted
 from the beginning of the line

---
 src/handlebars.l                |  26 +++++-
 src/handlebars.lex.c            | 146 ++++++++++++++++++--------------
 src/handlebars.lex.h            |   8 +-
 src/handlebars_parser.c         |   2 +
 src/handlebars_parser_private.h |   5 ++
 5 files changed, 115 insertions(+), 72 deletions(-)

diff --git a/src/handlebars.l b/src/handlebars.l
index b23c252..1593a63 100644
--- a/src/handlebars.l
+++ b/src/handlebars.l
@@ -79,6 +79,7 @@
 		for ( i = yyleng - 1; i >= yyleng - n && i >= 0; --i ) { \
 			unput( yycopy[i] ); \
 		} \
+		handlebars_yy_locate(yyextra, yylloc, yycopy, yyleng > n ? yyleng - n : 0); \
 		handlebars_talloc_free(yycopy); \
     } while(0)
 
@@ -86,11 +87,28 @@
     yylval->string = handlebars_string_ctor(HBSCTX(yyextra), yytext, yyleng);
 
 #define YY_USER_ACTION \
-    yylloc->first_line = yylloc->last_line = yylineno; \
-    yylloc->first_column = yycolumn; \
-    yylloc->last_column = yycolumn + yyleng - 1; \
-    yycolumn += yyleng; \
+    yylloc->first_line = ((struct handlebars_parser *) yyextra)->line; \
+    yylloc->first_column = ((struct handlebars_parser *) yyextra)->column; \
+    handlebars_yy_locate(yyextra, yylloc, yytext, yyleng); \
    	YY_USER_DEBUG_ACTION;
+
+// Moves to the end of the first len bytes of the text that starts at the beginning of the location
+static void handlebars_yy_locate(struct handlebars_parser * parser, struct handlebars_locinfo * lloc, const char * text, int len)
+{
+    int i;
+    lloc->last_line = parser->line = lloc->first_line;
+    lloc->last_column = parser->column = lloc->first_column;
+    for( i = 0; i < len; i++ ) {
+        lloc->last_line = parser->line;
+        lloc->last_column = parser->column;
+        if( text[i] == '\n' ) {
+            parser->line++;
+            parser->column = 0;
+        } else {
+            parser->column++;
+        }
+    }
+}
 %}
 
 %option prefix="handlebars_yy_"
diff --git a/src/handlebars.lex.c b/src/handlebars.lex.c
index e18ac8c..d411121 100644
--- a/src/handlebars.lex.c
+++ b/src/handlebars.lex.c
@@ -1,6 +1,6 @@
-#line 1 "handlebars.lex.c"
+#line 2 "handlebars.lex.c"
 
-#line 3 "handlebars.lex.c"
+#line 4 "handlebars.lex.c"
 
 #define  YY_INT_ALIGNED long int
 
@@ -5089,6 +5089,7 @@ static const flex_int32_t yy_rule_can_match_eol[52] =
 		for ( i = yyleng - 1; i >= yyleng - n && i >= 0; --i ) { \
 			unput( yycopy[i] ); \
 		} \
+		handlebars_yy_locate(yyextra, yylloc, yycopy, yyleng > n ? yyleng - n : 0); \
 		handlebars_talloc_free(yycopy); \
     } while(0)
 
@@ -5096,14 +5097,31 @@ static const flex_int32_t yy_rule_can_match_eol[52] =
     yylval->string = handlebars_string_ctor(HBSCTX(yyextra), yytext, yyleng);
 
 #define YY_USER_ACTION \
-    yylloc->first_line = yylloc->last_line = yylineno; \
-    yylloc->first_column = yycolumn; \
-    yylloc->last_column = yycolumn + yyleng - 1; \
-    yycolumn += yyleng; \
+    yylloc->first_line = ((struct handlebars_parser *) yyextra)->line; \
+    yylloc->first_column = ((struct handlebars_parser *) yyextra)->column; \
+    handlebars_yy_locate(yyextra, yylloc, yytext, yyleng); \
    	YY_USER_DEBUG_ACTION;
-#line 5104 "handlebars.lex.c"
 
-#line 5106 "handlebars.lex.c"
+// Moves to the end of the first len bytes of the text that starts at the beginning of the location
+static void handlebars_yy_locate(struct handlebars_parser * parser, struct handlebars_locinfo * lloc, const char * text, int len)
+{
+    int i;
+    lloc->last_line = parser->line = lloc->first_line;
+    lloc->last_column = parser->column = lloc->first_column;
+    for( i = 0; i < len; i++ ) {
+        lloc->last_line = parser->line;
+        lloc->last_column = parser->column;
+        if( text[i] == '\n' ) {
+            parser->line++;
+            parser->column = 0;
+        } else {
+            parser->column++;
+        }
+    }
+}
+#line 5123 "handlebars.lex.c"
+
+#line 5125 "handlebars.lex.c"
 
 #define INITIAL 0
 #define mu 1
@@ -5382,11 +5400,11 @@ YY_DECL
 		}
 
 	{
-#line 137 "handlebars.l"
+#line 155 "handlebars.l"
 
 
 
-#line 5389 "handlebars.lex.c"
+#line 5408 "handlebars.lex.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -5453,7 +5471,7 @@ do_action:	/* This label is used only to access EOF actions. */
 case 1:
 /* rule 1 can match eol */
 YY_RULE_SETUP
-#line 140 "handlebars.l"
+#line 158 "handlebars.l"
 {
 										int n = yytext[yyleng - 3] == '{' ? 3 : 2;
 										handlebars_yy_unput_n(n);
@@ -5466,7 +5484,7 @@ YY_RULE_SETUP
 case 2:
 /* rule 2 can match eol */
 YY_RULE_SETUP
-#line 149 "handlebars.l"
+#line 167 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 31
 										handlebars_yy_copy_lval();
@@ -5475,7 +5493,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 155 "handlebars.l"
+#line 173 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 32
 										handlebars_yy_unput_n(2);
@@ -5490,7 +5508,7 @@ YY_RULE_SETUP
 case 4:
 /* rule 4 can match eol */
 YY_RULE_SETUP
-#line 166 "handlebars.l"
+#line 184 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 35
 										yy_push_state(emu, yyscanner);
@@ -5501,7 +5519,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 174 "handlebars.l"
+#line 192 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 38
 										handlebars_yy_unput_all;
@@ -5510,7 +5528,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 180 "handlebars.l"
+#line 198 "handlebars.l"
 {
 										handlebars_yy_copy_lval();
 										return CONTENT;
@@ -5518,7 +5536,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 185 "handlebars.l"
+#line 203 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 47
 										handlebars_yy_unput_all;
@@ -5532,7 +5550,7 @@ YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 191 "handlebars.l"
+#line 209 "handlebars.l"
 {
                                   		yy_push_state(raw, yyscanner);
 										handlebars_yy_copy_lval();
@@ -5541,7 +5559,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 197 "handlebars.l"
+#line 215 "handlebars.l"
 {
 										// v4.0.2 handlebars.l line 54
 
@@ -5559,7 +5577,7 @@ YY_RULE_SETUP
 case 10:
 /* rule 10 can match eol */
 YY_RULE_SETUP
-#line 211 "handlebars.l"
+#line 229 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 57
 										handlebars_yy_copy_lval();
@@ -5568,7 +5586,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 217 "handlebars.l"
+#line 235 "handlebars.l"
 {
 										handlebars_yy_copy_lval();
 										return CONTENT;
@@ -5577,7 +5595,7 @@ YY_RULE_SETUP
 case 12:
 /* rule 12 can match eol */
 YY_RULE_SETUP
-#line 222 "handlebars.l"
+#line 240 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 59
   										yy_pop_state(yyg);
@@ -5590,7 +5608,7 @@ YY_RULE_SETUP
 case 13:
 /* rule 13 can match eol */
 YY_RULE_SETUP
-#line 231 "handlebars.l"
+#line 249 "handlebars.l"
 {
   										//yytext[yyleng -= 2] = 0;
   										yy_pop_state(yyg);
@@ -5600,7 +5618,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 238 "handlebars.l"
+#line 256 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 61
 										handlebars_yy_copy_lval();
@@ -5609,7 +5627,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 244 "handlebars.l"
+#line 262 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 62
 										handlebars_yy_copy_lval();
@@ -5618,7 +5636,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 250 "handlebars.l"
+#line 268 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 64
 										handlebars_yy_copy_lval();
@@ -5627,7 +5645,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 256 "handlebars.l"
+#line 274 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 65
 										yy_pop_state(yyg);
@@ -5638,7 +5656,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 264 "handlebars.l"
+#line 282 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 70
 										handlebars_yy_copy_lval();
@@ -5647,7 +5665,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
-#line 270 "handlebars.l"
+#line 288 "handlebars.l"
 {
 										// v4.0.2 handlebars.l line 83
 										handlebars_yy_copy_lval();
@@ -5656,7 +5674,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 276 "handlebars.l"
+#line 294 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 71
 										handlebars_yy_copy_lval();
@@ -5665,7 +5683,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 282 "handlebars.l"
+#line 300 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 72
 										handlebars_yy_copy_lval();
@@ -5674,7 +5692,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 288 "handlebars.l"
+#line 306 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 73
 										yy_pop_state(yyg);
@@ -5685,7 +5703,7 @@ YY_RULE_SETUP
 case 23:
 /* rule 23 can match eol */
 YY_RULE_SETUP
-#line 295 "handlebars.l"
+#line 313 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 74
 										yy_pop_state(yyg);
@@ -5695,7 +5713,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 24:
 YY_RULE_SETUP
-#line 302 "handlebars.l"
+#line 320 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 75
 										handlebars_yy_copy_lval();
@@ -5704,7 +5722,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
-#line 308 "handlebars.l"
+#line 326 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 76
 										handlebars_yy_copy_lval();
@@ -5713,7 +5731,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 26:
 YY_RULE_SETUP
-#line 314 "handlebars.l"
+#line 332 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 77
 										handlebars_yy_copy_lval();
@@ -5722,7 +5740,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
-#line 320 "handlebars.l"
+#line 338 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 78
 										handlebars_yy_copy_lval();
@@ -5731,7 +5749,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 28:
 YY_RULE_SETUP
-#line 326 "handlebars.l"
+#line 344 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 79
 										handlebars_yy_unput_all;
@@ -5741,7 +5759,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 29:
 YY_RULE_SETUP
-#line 333 "handlebars.l"
+#line 351 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 80
 										handlebars_yy_unput_all;
@@ -5751,7 +5769,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
-#line 340 "handlebars.l"
+#line 358 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 81
 										handlebars_yy_copy_lval();
@@ -5760,7 +5778,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 31:
 YY_RULE_SETUP
-#line 346 "handlebars.l"
+#line 364 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 83
 										handlebars_yy_copy_lval();
@@ -5769,7 +5787,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 32:
 YY_RULE_SETUP
-#line 352 "handlebars.l"
+#line 370 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 84
 										handlebars_yy_copy_lval();
@@ -5783,7 +5801,7 @@ YY_LINENO_REWIND_TO(yy_bp + 1);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 358 "handlebars.l"
+#line 376 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 85
 										handlebars_yy_copy_lval();
@@ -5792,7 +5810,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 34:
 YY_RULE_SETUP
-#line 364 "handlebars.l"
+#line 382 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 86
 										handlebars_yy_copy_lval();
@@ -5802,7 +5820,7 @@ YY_RULE_SETUP
 case 35:
 /* rule 35 can match eol */
 YY_RULE_SETUP
-#line 370 "handlebars.l"
+#line 388 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 87
 										// ignore whitespace
@@ -5810,7 +5828,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 36:
 YY_RULE_SETUP
-#line 375 "handlebars.l"
+#line 393 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 88
 										yy_pop_state(yyg);
@@ -5820,7 +5838,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
-#line 382 "handlebars.l"
+#line 400 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 89
 										yy_pop_state(yyg);
@@ -5831,7 +5849,7 @@ YY_RULE_SETUP
 case 38:
 /* rule 38 can match eol */
 YY_RULE_SETUP
-#line 389 "handlebars.l"
+#line 407 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 90
 										yytext[--yyleng] = 0;
@@ -5844,7 +5862,7 @@ YY_RULE_SETUP
 case 39:
 /* rule 39 can match eol */
 YY_RULE_SETUP
-#line 398 "handlebars.l"
+#line 416 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 91
 										yytext[--yyleng] = 0;
@@ -5856,7 +5874,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-#line 407 "handlebars.l"
+#line 425 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 92
 										handlebars_yy_copy_lval();
@@ -5866,7 +5884,7 @@ YY_RULE_SETUP
 case 41:
 /* rule 41 can match eol */
 YY_RULE_SETUP
-#line 413 "handlebars.l"
+#line 431 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 108
 										handlebars_yy_copy_lval();
@@ -5875,7 +5893,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-#line 419 "handlebars.l"
+#line 437 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 109
 										handlebars_yy_copy_lval();
@@ -5889,7 +5907,7 @@ YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 425 "handlebars.l"
+#line 443 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 93
 										handlebars_yy_copy_lval();
@@ -5903,7 +5921,7 @@ YY_LINENO_REWIND_TO(yy_bp + 5);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 5;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 431 "handlebars.l"
+#line 449 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 94
 										handlebars_yy_copy_lval();
@@ -5917,7 +5935,7 @@ YY_LINENO_REWIND_TO(yy_bp + 9);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 9;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 437 "handlebars.l"
+#line 455 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 105
 										handlebars_yy_copy_lval();
@@ -5931,7 +5949,7 @@ YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 443 "handlebars.l"
+#line 461 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 106
 										handlebars_yy_copy_lval();
@@ -5945,7 +5963,7 @@ YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 449 "handlebars.l"
+#line 467 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 95
 										handlebars_yy_copy_lval();
@@ -5959,7 +5977,7 @@ YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 456 "handlebars.l"
+#line 474 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 97
 										handlebars_yy_copy_lval();
@@ -5969,7 +5987,7 @@ YY_RULE_SETUP
 case 49:
 /* rule 49 can match eol */
 YY_RULE_SETUP
-#line 462 "handlebars.l"
+#line 480 "handlebars.l"
 {
 										// v4.0.3 handlebars.l line 123
 										// yytext = strip(1,2);
@@ -5982,7 +6000,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 50:
 YY_RULE_SETUP
-#line 472 "handlebars.l"
+#line 490 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 100
 										handlebars_yy_copy_lval();
@@ -5995,7 +6013,7 @@ case YY_STATE_EOF(emu):
 case YY_STATE_EOF(com):
 case YY_STATE_EOF(com1):
 case YY_STATE_EOF(raw):
-#line 478 "handlebars.l"
+#line 496 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 102
 										return END;
@@ -6003,10 +6021,10 @@ case YY_STATE_EOF(raw):
 	YY_BREAK
 case 51:
 YY_RULE_SETUP
-#line 483 "handlebars.l"
+#line 501 "handlebars.l"
 ECHO;
 	YY_BREAK
-#line 6009 "handlebars.lex.c"
+#line 6028 "handlebars.lex.c"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -7214,6 +7232,6 @@ static int yy_flex_strlen (const char * s , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 483 "handlebars.l"
+#line 501 "handlebars.l"
 
 
diff --git a/src/handlebars.lex.h b/src/handlebars.lex.h
index e85c698..5f49ef8 100644
--- a/src/handlebars.lex.h
+++ b/src/handlebars.lex.h
@@ -2,9 +2,9 @@
 #define handlebars_yy_HEADER_H 1
 #define handlebars_yy_IN_HEADER 1
 
-#line 5 "handlebars.lex.h"
+#line 6 "handlebars.lex.h"
 
-#line 7 "handlebars.lex.h"
+#line 8 "handlebars.lex.h"
 
 #define  YY_INT_ALIGNED long int
 
@@ -733,9 +733,9 @@ extern int yylex \
 #undef yyTABLES_NAME
 #endif
 
-#line 483 "handlebars.l"
+#line 501 "handlebars.l"
 
 
-#line 739 "handlebars.lex.h"
+#line 740 "handlebars.lex.h"
 #undef handlebars_yy_IN_HEADER
 #endif /* handlebars_yy_HEADER_H */
diff --git a/src/handlebars_parser.c b/src/handlebars_parser.c
index 51ec25a..d0c0b0d 100644
--- a/src/handlebars_parser.c
+++ b/src/handlebars_parser.c
@@ -52,6 +52,8 @@ struct handlebars_parser * handlebars_parser_ctor(struct handlebars_context * ct
     // Set the current context in a variable for yyalloc >.>
     handlebars_parser_init_current = parser;
 
+    parser->line = 1;
+
     // Initialize lexer
     lexerr = handlebars_yy_lex_init(&parser->scanner);
     if( unlikely(lexerr != 0) ) {
diff --git a/src/handlebars_parser_private.h b/src/handlebars_parser_private.h
index 56ed56d..1d88944 100644
--- a/src/handlebars_parser_private.h
+++ b/src/handlebars_parser_private.h
@@ -42,6 +42,11 @@ struct handlebars_parser
     struct handlebars_string * tmpl;
 
     int tmplReadOffset;
+
+    //! The position of the next token
+    int line;
+    int column;
+
     void * scanner;
     struct handlebars_ast_node * program;
     bool whitespace_root_seen;
-- 
2.43.0


From 40f9d1d17ff4d5830bd9db99432210b00e5abbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:25 +0000
Subject: [PATCH 094/102] fix: the text of an error lost its location when the
 message was long

---
 src/handlebars.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/handlebars.c b/src/handlebars.c
index 7a70c79..2c7f4e0 100644
--- a/src/handlebars.c
+++ b/src/handlebars.c
@@ -111,7 +111,6 @@ const char * handlebars_error_msg(struct handlebars_context * context)
 char * handlebars_error_message(struct handlebars_context * context)
 {
     char * errmsg;
-    char errbuf[256];
     struct handlebars_error * e = context->e;
 
     assert(context != NULL);
@@ -121,12 +120,10 @@ char * handlebars_error_message(struct handlebars_context * context)
         return NULL;
     }
 
-    snprintf(errbuf, sizeof(errbuf), "%s on line %d, column %d",
+    errmsg = handlebars_talloc_asprintf(context, "%s on line %d, column %d",
              e->msg,
              e->loc.last_line,
              e->loc.last_column);
-
-    errmsg = handlebars_talloc_strdup(context, errbuf);
     if( unlikely(errmsg == NULL) ) {
         // this might be a bad idea...
         // fprintf(stderr, "%s\n", e->msg);
@@ -140,7 +137,6 @@ char * handlebars_error_message(struct handlebars_context * context)
 char * handlebars_error_message_js(struct handlebars_context * context)
 {
     char * errmsg;
-    char errbuf[512];
     struct handlebars_error * e = context->e;
 
     assert(context != NULL);
@@ -151,12 +147,10 @@ char * handlebars_error_message_js(struct handlebars_context * context)
 
     // @todo check errno == HANDLEBARS_PARSEERR
 
-    snprintf(errbuf, sizeof(errbuf), "Parse error on line %d, column %d : %s",
+    errmsg = handlebars_talloc_asprintf(context, "Parse error on line %d, column %d : %s",
              e->loc.first_line,
              e->loc.first_column,
              e->msg);
-
-    errmsg = handlebars_talloc_strdup(context, errbuf);
     if( unlikely(errmsg == NULL) ) {
         // this might be a bad idea...
         // fprintf(stderr, "%s\n", e->msg);
-- 
2.43.0


From a42eec9323bc35ae79037c1c21273d17be46bf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:04 +0000
Subject: [PATCH 095/102] fix: a helper whose name is written as a literal had
 no location

---
 src/handlebars_compiler.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index 364d82f..c41ca6a 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -619,6 +619,7 @@ static inline void handlebars_compiler_transform_literal_to_path(
 	struct handlebars_ast_node * part;
 	struct handlebars_ast_list * parts;
 	struct handlebars_string * val;
+	struct handlebars_locinfo loc = path->loc;
 	switch( path->type ) {
 		case HANDLEBARS_AST_NODE_UNDEFINED:
 		case HANDLEBARS_AST_NODE_NUL:
@@ -634,6 +635,7 @@ static inline void handlebars_compiler_transform_literal_to_path(
 		    // Re-jigger node
 		    memset(path, 0, sizeof(struct handlebars_ast_node));
 			path->type = HANDLEBARS_AST_NODE_PATH;
+			path->loc = loc;
 			path->node.path.original = talloc_steal(part, handlebars_string_copy_ctor(CONTEXT, val));
 			path->node.path.parts = talloc_steal(path, parts);
 			break;
-- 
2.43.0


From 5532e421cc9d9315c89bf53cdfe54efe01364add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:47 +0000
Subject: [PATCH 096/102] fix: a comment with dashes or without an end
 swallowed the rest of the template

---
 src/handlebars.l     |   11 +-
 src/handlebars.lex.c | 5573 ++++++++++++++++++++++--------------------
 src/handlebars.lex.h |    2 +-
 3 files changed, 2942 insertions(+), 2644 deletions(-)

diff --git a/src/handlebars.l b/src/handlebars.l
index 1593a63..6d533e9 100644
--- a/src/handlebars.l
+++ b/src/handlebars.l
@@ -151,6 +151,10 @@ IDC	  [^ \r\n\t!\"#%-,\.\/;->@\[-\^`\{-~]
 ID    {IDC}+/{LOOKAHEAD}
 BLOCKPARAM [\x7C]
 
+DASHES    "--""-"*
+CEND      {DASHES}("~"|"~"?"}")
+CTEXT     [^-]|{CEND}*("-"[^-]|{DASHES}[^-~}]|{CEND}[^-}])
+
 
 %%
 
@@ -237,7 +241,7 @@ BLOCKPARAM [\x7C]
 										return CONTENT;
 									}
 
-<com>"{{"{LEFT_STRIP}?"!--"([-]?[^-])*"--"{RIGHT_STRIP}?"}}" {
+<com>"{{"{LEFT_STRIP}?"!"{CTEXT}*{CEND}*{DASHES}{RIGHT_STRIP}?"}}" {
 										// v3.0.3 handlebars.l line 59
   										yy_pop_state(yyg);
   										//yytext[yyleng -= 4] = 0;
@@ -253,6 +257,11 @@ BLOCKPARAM [\x7C]
   										return COMMENT;
 									}
 
+<com,com1>.|\n						{
+										handlebars_yy_copy_lval();
+										return INVALID;
+									}
+
 <mu>"("                          	{
 										// v2.0.0 handlebars.l line 61
 										handlebars_yy_copy_lval();
diff --git a/src/handlebars.lex.c b/src/handlebars.lex.c
index d411121..35e46ab 100644
--- a/src/handlebars.lex.c
+++ b/src/handlebars.lex.c
@@ -592,16 +592,16 @@ static void yynoreturn yy_fatal_error ( const char* msg , yyscan_t yyscanner );
 	yyg->yy_hold_char = *yy_cp; \
 	*yy_cp = '\0'; \
 	yyg->yy_c_buf_p = yy_cp;
-#define YY_NUM_RULES 51
-#define YY_END_OF_BUFFER 52
+#define YY_NUM_RULES 52
+#define YY_END_OF_BUFFER 53
 struct yy_trans_info
 	{
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const struct yy_trans_info yy_transition[20137] =
+static const struct yy_trans_info yy_transition[21408] =
     {
- {   0,   0 }, {   0,19881 }, {   0,   2 }, {   0,19879 }, {   1,3096 },
+ {   0,   0 }, {   0,21152 }, {   0,   2 }, {   0,21150 }, {   1,3096 },
  {   2,3096 }, {   3,3096 }, {   4,3096 }, {   5,3096 }, {   6,3096 },
  {   7,3096 }, {   8,3096 }, {   9,3096 }, {  10,3353 }, {  11,3096 },
  {  12,3096 }, {  13,3353 }, {  14,3096 }, {  15,3096 }, {  16,3096 },
@@ -658,7 +658,7 @@ static const struct yy_trans_info yy_transition[20137] =
 
  { 247,3096 }, { 248,3096 }, { 249,3096 }, { 250,3096 }, { 251,3096 },
  { 252,3096 }, { 253,3096 }, { 254,3096 }, { 255,3096 }, { 256,3359 },
- {   0,   2 }, {   0,19621 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
+ {   0,   2 }, {   0,20892 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
  {   4,2838 }, {   5,2838 }, {   6,2838 }, {   7,2838 }, {   8,2838 },
  {   9,2838 }, {  10,3095 }, {  11,2838 }, {  12,2838 }, {  13,3095 },
  {  14,2838 }, {  15,2838 }, {  16,2838 }, {  17,2838 }, {  18,2838 },
@@ -714,7 +714,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 239,2838 }, { 240,2838 }, { 241,2838 }, { 242,2838 }, { 243,2838 },
  { 244,2838 }, { 245,2838 }, { 246,2838 }, { 247,2838 }, { 248,2838 },
  { 249,2838 }, { 250,2838 }, { 251,2838 }, { 252,2838 }, { 253,2838 },
- { 254,2838 }, { 255,2838 }, { 256,3101 }, {   0,   0 }, {   0,19363 },
+ { 254,2838 }, { 255,2838 }, { 256,3101 }, {   0,   0 }, {   0,20634 },
  {   1,3223 }, {   2,3223 }, {   3,3223 }, {   4,3223 }, {   5,3223 },
  {   6,3223 }, {   7,3223 }, {   8,3223 }, {   9,2845 }, {  10,2852 },
  {  11,3223 }, {  12,3223 }, {  13,2845 }, {  14,3223 }, {  15,3223 },
@@ -771,7 +771,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 241,3223 }, { 242,3223 }, { 243,3223 }, { 244,3223 }, { 245,3223 },
  { 246,3223 }, { 247,3223 }, { 248,3223 }, { 249,3223 }, { 250,3223 },
  { 251,3223 }, { 252,3223 }, { 253,3223 }, { 254,3223 }, { 255,3223 },
- { 256,3223 }, {   0,   0 }, {   0,19105 }, {   1,2965 }, {   2,2965 },
+ { 256,3223 }, {   0,   0 }, {   0,20376 }, {   1,2965 }, {   2,2965 },
  {   3,2965 }, {   4,2965 }, {   5,2965 }, {   6,2965 }, {   7,2965 },
  {   8,2965 }, {   9,2587 }, {  10,2594 }, {  11,2965 }, {  12,2965 },
  {  13,2587 }, {  14,2965 }, {  15,2965 }, {  16,2965 }, {  17,2965 },
@@ -828,7 +828,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 243,2965 }, { 244,2965 }, { 245,2965 }, { 246,2965 }, { 247,2965 },
  { 248,2965 }, { 249,2965 }, { 250,2965 }, { 251,2965 }, { 252,2965 },
  { 253,2965 }, { 254,2965 }, { 255,2965 }, { 256,2965 }, {   0,   0 },
- {   0,18847 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
+ {   0,20118 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
  {   5,3792 }, {   6,3792 }, {   7,3792 }, {   8,3792 }, {   9,3792 },
  {  10,2327 }, {  11,3792 }, {  12,3792 }, {  13,3792 }, {  14,3792 },
 
@@ -884,7 +884,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 240,3792 }, { 241,3792 }, { 242,3792 }, { 243,3792 }, { 244,3792 },
  { 245,3792 }, { 246,3792 }, { 247,3792 }, { 248,3792 }, { 249,3792 },
  { 250,3792 }, { 251,3792 }, { 252,3792 }, { 253,3792 }, { 254,3792 },
- { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,18589 }, {   1,3534 },
+ { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,19860 }, {   1,3534 },
  {   2,3534 }, {   3,3534 }, {   4,3534 }, {   5,3534 }, {   6,3534 },
 
  {   7,3534 }, {   8,3534 }, {   9,3534 }, {  10,2069 }, {  11,3534 },
@@ -942,3645 +942,3348 @@ static const struct yy_trans_info yy_transition[20137] =
  { 247,3534 }, { 248,3534 }, { 249,3534 }, { 250,3534 }, { 251,3534 },
  { 252,3534 }, { 253,3534 }, { 254,3534 }, { 255,3534 }, { 256,3534 },
 
- {   0,   0 }, {   0,18331 }, {   1,1811 }, {   2,1811 }, {   3,1811 },
- {   4,1811 }, {   5,1811 }, {   6,1811 }, {   7,1811 }, {   8,1811 },
- {   9,1811 }, {  10,1811 }, {  11,1811 }, {  12,1811 }, {  13,1811 },
- {  14,1811 }, {  15,1811 }, {  16,1811 }, {  17,1811 }, {  18,1811 },
- {  19,1811 }, {  20,1811 }, {  21,1811 }, {  22,1811 }, {  23,1811 },
- {  24,1811 }, {  25,1811 }, {  26,1811 }, {  27,1811 }, {  28,1811 },
- {  29,1811 }, {  30,1811 }, {  31,1811 }, {  32,1811 }, {  33,1811 },
- {  34,1811 }, {  35,1811 }, {  36,1811 }, {  37,1811 }, {  38,1811 },
- {  39,1811 }, {  40,1811 }, {  41,1811 }, {  42,1811 }, {  43,1811 },
- {  44,1811 }, {  45,1811 }, {  46,1811 }, {  47,1811 }, {  48,1811 },
-
- {  49,1811 }, {  50,1811 }, {  51,1811 }, {  52,1811 }, {  53,1811 },
- {  54,1811 }, {  55,1811 }, {  56,1811 }, {  57,1811 }, {  58,1811 },
- {  59,1811 }, {  60,1811 }, {  61,1811 }, {  62,1811 }, {  63,1811 },
- {  64,1811 }, {  65,1811 }, {  66,1811 }, {  67,1811 }, {  68,1811 },
- {  69,1811 }, {  70,1811 }, {  71,1811 }, {  72,1811 }, {  73,1811 },
- {  74,1811 }, {  75,1811 }, {  76,1811 }, {  77,1811 }, {  78,1811 },
- {  79,1811 }, {  80,1811 }, {  81,1811 }, {  82,1811 }, {  83,1811 },
- {  84,1811 }, {  85,1811 }, {  86,1811 }, {  87,1811 }, {  88,1811 },
- {  89,1811 }, {  90,1811 }, {  91,1811 }, {  92,1811 }, {  93,1811 },
- {  94,1811 }, {  95,1811 }, {  96,1811 }, {  97,1811 }, {  98,1811 },
-
- {  99,1811 }, { 100,1811 }, { 101,1811 }, { 102,1811 }, { 103,1811 },
- { 104,1811 }, { 105,1811 }, { 106,1811 }, { 107,1811 }, { 108,1811 },
- { 109,1811 }, { 110,1811 }, { 111,1811 }, { 112,1811 }, { 113,1811 },
- { 114,1811 }, { 115,1811 }, { 116,1811 }, { 117,1811 }, { 118,1811 },
- { 119,1811 }, { 120,1811 }, { 121,1811 }, { 122,1811 }, { 123,3278 },
- { 124,1811 }, { 125,1811 }, { 126,1811 }, { 127,1811 }, { 128,1811 },
- { 129,1811 }, { 130,1811 }, { 131,1811 }, { 132,1811 }, { 133,1811 },
- { 134,1811 }, { 135,1811 }, { 136,1811 }, { 137,1811 }, { 138,1811 },
- { 139,1811 }, { 140,1811 }, { 141,1811 }, { 142,1811 }, { 143,1811 },
- { 144,1811 }, { 145,1811 }, { 146,1811 }, { 147,1811 }, { 148,1811 },
-
- { 149,1811 }, { 150,1811 }, { 151,1811 }, { 152,1811 }, { 153,1811 },
- { 154,1811 }, { 155,1811 }, { 156,1811 }, { 157,1811 }, { 158,1811 },
- { 159,1811 }, { 160,1811 }, { 161,1811 }, { 162,1811 }, { 163,1811 },
- { 164,1811 }, { 165,1811 }, { 166,1811 }, { 167,1811 }, { 168,1811 },
- { 169,1811 }, { 170,1811 }, { 171,1811 }, { 172,1811 }, { 173,1811 },
- { 174,1811 }, { 175,1811 }, { 176,1811 }, { 177,1811 }, { 178,1811 },
- { 179,1811 }, { 180,1811 }, { 181,1811 }, { 182,1811 }, { 183,1811 },
- { 184,1811 }, { 185,1811 }, { 186,1811 }, { 187,1811 }, { 188,1811 },
- { 189,1811 }, { 190,1811 }, { 191,1811 }, { 192,1811 }, { 193,1811 },
- { 194,1811 }, { 195,1811 }, { 196,1811 }, { 197,1811 }, { 198,1811 },
-
- { 199,1811 }, { 200,1811 }, { 201,1811 }, { 202,1811 }, { 203,1811 },
- { 204,1811 }, { 205,1811 }, { 206,1811 }, { 207,1811 }, { 208,1811 },
- { 209,1811 }, { 210,1811 }, { 211,1811 }, { 212,1811 }, { 213,1811 },
- { 214,1811 }, { 215,1811 }, { 216,1811 }, { 217,1811 }, { 218,1811 },
- { 219,1811 }, { 220,1811 }, { 221,1811 }, { 222,1811 }, { 223,1811 },
- { 224,1811 }, { 225,1811 }, { 226,1811 }, { 227,1811 }, { 228,1811 },
- { 229,1811 }, { 230,1811 }, { 231,1811 }, { 232,1811 }, { 233,1811 },
- { 234,1811 }, { 235,1811 }, { 236,1811 }, { 237,1811 }, { 238,1811 },
- { 239,1811 }, { 240,1811 }, { 241,1811 }, { 242,1811 }, { 243,1811 },
- { 244,1811 }, { 245,1811 }, { 246,1811 }, { 247,1811 }, { 248,1811 },
-
- { 249,1811 }, { 250,1811 }, { 251,1811 }, { 252,1811 }, { 253,1811 },
- { 254,1811 }, { 255,1811 }, { 256,1811 }, {   0,   0 }, {   0,18073 },
- {   1,1553 }, {   2,1553 }, {   3,1553 }, {   4,1553 }, {   5,1553 },
- {   6,1553 }, {   7,1553 }, {   8,1553 }, {   9,1553 }, {  10,1553 },
- {  11,1553 }, {  12,1553 }, {  13,1553 }, {  14,1553 }, {  15,1553 },
- {  16,1553 }, {  17,1553 }, {  18,1553 }, {  19,1553 }, {  20,1553 },
- {  21,1553 }, {  22,1553 }, {  23,1553 }, {  24,1553 }, {  25,1553 },
- {  26,1553 }, {  27,1553 }, {  28,1553 }, {  29,1553 }, {  30,1553 },
- {  31,1553 }, {  32,1553 }, {  33,1553 }, {  34,1553 }, {  35,1553 },
- {  36,1553 }, {  37,1553 }, {  38,1553 }, {  39,1553 }, {  40,1553 },
-
- {  41,1553 }, {  42,1553 }, {  43,1553 }, {  44,1553 }, {  45,1553 },
- {  46,1553 }, {  47,1553 }, {  48,1553 }, {  49,1553 }, {  50,1553 },
- {  51,1553 }, {  52,1553 }, {  53,1553 }, {  54,1553 }, {  55,1553 },
- {  56,1553 }, {  57,1553 }, {  58,1553 }, {  59,1553 }, {  60,1553 },
- {  61,1553 }, {  62,1553 }, {  63,1553 }, {  64,1553 }, {  65,1553 },
- {  66,1553 }, {  67,1553 }, {  68,1553 }, {  69,1553 }, {  70,1553 },
- {  71,1553 }, {  72,1553 }, {  73,1553 }, {  74,1553 }, {  75,1553 },
- {  76,1553 }, {  77,1553 }, {  78,1553 }, {  79,1553 }, {  80,1553 },
- {  81,1553 }, {  82,1553 }, {  83,1553 }, {  84,1553 }, {  85,1553 },
- {  86,1553 }, {  87,1553 }, {  88,1553 }, {  89,1553 }, {  90,1553 },
-
- {  91,1553 }, {  92,1553 }, {  93,1553 }, {  94,1553 }, {  95,1553 },
- {  96,1553 }, {  97,1553 }, {  98,1553 }, {  99,1553 }, { 100,1553 },
- { 101,1553 }, { 102,1553 }, { 103,1553 }, { 104,1553 }, { 105,1553 },
- { 106,1553 }, { 107,1553 }, { 108,1553 }, { 109,1553 }, { 110,1553 },
- { 111,1553 }, { 112,1553 }, { 113,1553 }, { 114,1553 }, { 115,1553 },
- { 116,1553 }, { 117,1553 }, { 118,1553 }, { 119,1553 }, { 120,1553 },
- { 121,1553 }, { 122,1553 }, { 123,3020 }, { 124,1553 }, { 125,1553 },
- { 126,1553 }, { 127,1553 }, { 128,1553 }, { 129,1553 }, { 130,1553 },
- { 131,1553 }, { 132,1553 }, { 133,1553 }, { 134,1553 }, { 135,1553 },
- { 136,1553 }, { 137,1553 }, { 138,1553 }, { 139,1553 }, { 140,1553 },
-
- { 141,1553 }, { 142,1553 }, { 143,1553 }, { 144,1553 }, { 145,1553 },
- { 146,1553 }, { 147,1553 }, { 148,1553 }, { 149,1553 }, { 150,1553 },
- { 151,1553 }, { 152,1553 }, { 153,1553 }, { 154,1553 }, { 155,1553 },
- { 156,1553 }, { 157,1553 }, { 158,1553 }, { 159,1553 }, { 160,1553 },
- { 161,1553 }, { 162,1553 }, { 163,1553 }, { 164,1553 }, { 165,1553 },
- { 166,1553 }, { 167,1553 }, { 168,1553 }, { 169,1553 }, { 170,1553 },
- { 171,1553 }, { 172,1553 }, { 173,1553 }, { 174,1553 }, { 175,1553 },
- { 176,1553 }, { 177,1553 }, { 178,1553 }, { 179,1553 }, { 180,1553 },
- { 181,1553 }, { 182,1553 }, { 183,1553 }, { 184,1553 }, { 185,1553 },
- { 186,1553 }, { 187,1553 }, { 188,1553 }, { 189,1553 }, { 190,1553 },
-
- { 191,1553 }, { 192,1553 }, { 193,1553 }, { 194,1553 }, { 195,1553 },
- { 196,1553 }, { 197,1553 }, { 198,1553 }, { 199,1553 }, { 200,1553 },
- { 201,1553 }, { 202,1553 }, { 203,1553 }, { 204,1553 }, { 205,1553 },
- { 206,1553 }, { 207,1553 }, { 208,1553 }, { 209,1553 }, { 210,1553 },
- { 211,1553 }, { 212,1553 }, { 213,1553 }, { 214,1553 }, { 215,1553 },
- { 216,1553 }, { 217,1553 }, { 218,1553 }, { 219,1553 }, { 220,1553 },
- { 221,1553 }, { 222,1553 }, { 223,1553 }, { 224,1553 }, { 225,1553 },
- { 226,1553 }, { 227,1553 }, { 228,1553 }, { 229,1553 }, { 230,1553 },
- { 231,1553 }, { 232,1553 }, { 233,1553 }, { 234,1553 }, { 235,1553 },
- { 236,1553 }, { 237,1553 }, { 238,1553 }, { 239,1553 }, { 240,1553 },
-
- { 241,1553 }, { 242,1553 }, { 243,1553 }, { 244,1553 }, { 245,1553 },
- { 246,1553 }, { 247,1553 }, { 248,1553 }, { 249,1553 }, { 250,1553 },
- { 251,1553 }, { 252,1553 }, { 253,1553 }, { 254,1553 }, { 255,1553 },
- { 256,1553 }, {   0,   0 }, {   0,17815 }, {   1,4595 }, {   2,4595 },
- {   3,4595 }, {   4,4595 }, {   5,4595 }, {   6,4595 }, {   7,4595 },
- {   8,4595 }, {   9,4595 }, {  10,4595 }, {  11,4595 }, {  12,4595 },
- {  13,4595 }, {  14,4595 }, {  15,4595 }, {  16,4595 }, {  17,4595 },
- {  18,4595 }, {  19,4595 }, {  20,4595 }, {  21,4595 }, {  22,4595 },
- {  23,4595 }, {  24,4595 }, {  25,4595 }, {  26,4595 }, {  27,4595 },
- {  28,4595 }, {  29,4595 }, {  30,4595 }, {  31,4595 }, {  32,4595 },
-
- {  33,4595 }, {  34,4595 }, {  35,4595 }, {  36,4595 }, {  37,4595 },
- {  38,4595 }, {  39,4595 }, {  40,4595 }, {  41,4595 }, {  42,4595 },
- {  43,4595 }, {  44,4595 }, {  45,4595 }, {  46,4595 }, {  47,4595 },
- {  48,4595 }, {  49,4595 }, {  50,4595 }, {  51,4595 }, {  52,4595 },
- {  53,4595 }, {  54,4595 }, {  55,4595 }, {  56,4595 }, {  57,4595 },
- {  58,4595 }, {  59,4595 }, {  60,4595 }, {  61,4595 }, {  62,4595 },
- {  63,4595 }, {  64,4595 }, {  65,4595 }, {  66,4595 }, {  67,4595 },
- {  68,4595 }, {  69,4595 }, {  70,4595 }, {  71,4595 }, {  72,4595 },
- {  73,4595 }, {  74,4595 }, {  75,4595 }, {  76,4595 }, {  77,4595 },
- {  78,4595 }, {  79,4595 }, {  80,4595 }, {  81,4595 }, {  82,4595 },
-
- {  83,4595 }, {  84,4595 }, {  85,4595 }, {  86,4595 }, {  87,4595 },
- {  88,4595 }, {  89,4595 }, {  90,4595 }, {  91,4595 }, {  92,4595 },
- {  93,4595 }, {  94,4595 }, {  95,4595 }, {  96,4595 }, {  97,4595 },
- {  98,4595 }, {  99,4595 }, { 100,4595 }, { 101,4595 }, { 102,4595 },
- { 103,4595 }, { 104,4595 }, { 105,4595 }, { 106,4595 }, { 107,4595 },
- { 108,4595 }, { 109,4595 }, { 110,4595 }, { 111,4595 }, { 112,4595 },
- { 113,4595 }, { 114,4595 }, { 115,4595 }, { 116,4595 }, { 117,4595 },
- { 118,4595 }, { 119,4595 }, { 120,4595 }, { 121,4595 }, { 122,4595 },
- { 123,4595 }, { 124,4595 }, { 125,4853 }, { 126,4595 }, { 127,4595 },
- { 128,4595 }, { 129,4595 }, { 130,4595 }, { 131,4595 }, { 132,4595 },
-
- { 133,4595 }, { 134,4595 }, { 135,4595 }, { 136,4595 }, { 137,4595 },
- { 138,4595 }, { 139,4595 }, { 140,4595 }, { 141,4595 }, { 142,4595 },
- { 143,4595 }, { 144,4595 }, { 145,4595 }, { 146,4595 }, { 147,4595 },
- { 148,4595 }, { 149,4595 }, { 150,4595 }, { 151,4595 }, { 152,4595 },
- { 153,4595 }, { 154,4595 }, { 155,4595 }, { 156,4595 }, { 157,4595 },
- { 158,4595 }, { 159,4595 }, { 160,4595 }, { 161,4595 }, { 162,4595 },
- { 163,4595 }, { 164,4595 }, { 165,4595 }, { 166,4595 }, { 167,4595 },
- { 168,4595 }, { 169,4595 }, { 170,4595 }, { 171,4595 }, { 172,4595 },
- { 173,4595 }, { 174,4595 }, { 175,4595 }, { 176,4595 }, { 177,4595 },
- { 178,4595 }, { 179,4595 }, { 180,4595 }, { 181,4595 }, { 182,4595 },
-
- { 183,4595 }, { 184,4595 }, { 185,4595 }, { 186,4595 }, { 187,4595 },
- { 188,4595 }, { 189,4595 }, { 190,4595 }, { 191,4595 }, { 192,4595 },
- { 193,4595 }, { 194,4595 }, { 195,4595 }, { 196,4595 }, { 197,4595 },
- { 198,4595 }, { 199,4595 }, { 200,4595 }, { 201,4595 }, { 202,4595 },
- { 203,4595 }, { 204,4595 }, { 205,4595 }, { 206,4595 }, { 207,4595 },
- { 208,4595 }, { 209,4595 }, { 210,4595 }, { 211,4595 }, { 212,4595 },
- { 213,4595 }, { 214,4595 }, { 215,4595 }, { 216,4595 }, { 217,4595 },
- { 218,4595 }, { 219,4595 }, { 220,4595 }, { 221,4595 }, { 222,4595 },
- { 223,4595 }, { 224,4595 }, { 225,4595 }, { 226,4595 }, { 227,4595 },
- { 228,4595 }, { 229,4595 }, { 230,4595 }, { 231,4595 }, { 232,4595 },
-
- { 233,4595 }, { 234,4595 }, { 235,4595 }, { 236,4595 }, { 237,4595 },
- { 238,4595 }, { 239,4595 }, { 240,4595 }, { 241,4595 }, { 242,4595 },
- { 243,4595 }, { 244,4595 }, { 245,4595 }, { 246,4595 }, { 247,4595 },
- { 248,4595 }, { 249,4595 }, { 250,4595 }, { 251,4595 }, { 252,4595 },
- { 253,4595 }, { 254,4595 }, { 255,4595 }, { 256,4595 }, {   0,   0 },
- {   0,17557 }, {   1,4337 }, {   2,4337 }, {   3,4337 }, {   4,4337 },
- {   5,4337 }, {   6,4337 }, {   7,4337 }, {   8,4337 }, {   9,4337 },
- {  10,4337 }, {  11,4337 }, {  12,4337 }, {  13,4337 }, {  14,4337 },
- {  15,4337 }, {  16,4337 }, {  17,4337 }, {  18,4337 }, {  19,4337 },
- {  20,4337 }, {  21,4337 }, {  22,4337 }, {  23,4337 }, {  24,4337 },
-
- {  25,4337 }, {  26,4337 }, {  27,4337 }, {  28,4337 }, {  29,4337 },
- {  30,4337 }, {  31,4337 }, {  32,4337 }, {  33,4337 }, {  34,4337 },
- {  35,4337 }, {  36,4337 }, {  37,4337 }, {  38,4337 }, {  39,4337 },
- {  40,4337 }, {  41,4337 }, {  42,4337 }, {  43,4337 }, {  44,4337 },
- {  45,4337 }, {  46,4337 }, {  47,4337 }, {  48,4337 }, {  49,4337 },
- {  50,4337 }, {  51,4337 }, {  52,4337 }, {  53,4337 }, {  54,4337 },
- {  55,4337 }, {  56,4337 }, {  57,4337 }, {  58,4337 }, {  59,4337 },
- {  60,4337 }, {  61,4337 }, {  62,4337 }, {  63,4337 }, {  64,4337 },
- {  65,4337 }, {  66,4337 }, {  67,4337 }, {  68,4337 }, {  69,4337 },
- {  70,4337 }, {  71,4337 }, {  72,4337 }, {  73,4337 }, {  74,4337 },
-
- {  75,4337 }, {  76,4337 }, {  77,4337 }, {  78,4337 }, {  79,4337 },
- {  80,4337 }, {  81,4337 }, {  82,4337 }, {  83,4337 }, {  84,4337 },
- {  85,4337 }, {  86,4337 }, {  87,4337 }, {  88,4337 }, {  89,4337 },
- {  90,4337 }, {  91,4337 }, {  92,4337 }, {  93,4337 }, {  94,4337 },
- {  95,4337 }, {  96,4337 }, {  97,4337 }, {  98,4337 }, {  99,4337 },
- { 100,4337 }, { 101,4337 }, { 102,4337 }, { 103,4337 }, { 104,4337 },
- { 105,4337 }, { 106,4337 }, { 107,4337 }, { 108,4337 }, { 109,4337 },
- { 110,4337 }, { 111,4337 }, { 112,4337 }, { 113,4337 }, { 114,4337 },
- { 115,4337 }, { 116,4337 }, { 117,4337 }, { 118,4337 }, { 119,4337 },
- { 120,4337 }, { 121,4337 }, { 122,4337 }, { 123,4337 }, { 124,4337 },
-
- { 125,4595 }, { 126,4337 }, { 127,4337 }, { 128,4337 }, { 129,4337 },
- { 130,4337 }, { 131,4337 }, { 132,4337 }, { 133,4337 }, { 134,4337 },
- { 135,4337 }, { 136,4337 }, { 137,4337 }, { 138,4337 }, { 139,4337 },
- { 140,4337 }, { 141,4337 }, { 142,4337 }, { 143,4337 }, { 144,4337 },
- { 145,4337 }, { 146,4337 }, { 147,4337 }, { 148,4337 }, { 149,4337 },
- { 150,4337 }, { 151,4337 }, { 152,4337 }, { 153,4337 }, { 154,4337 },
- { 155,4337 }, { 156,4337 }, { 157,4337 }, { 158,4337 }, { 159,4337 },
- { 160,4337 }, { 161,4337 }, { 162,4337 }, { 163,4337 }, { 164,4337 },
- { 165,4337 }, { 166,4337 }, { 167,4337 }, { 168,4337 }, { 169,4337 },
- { 170,4337 }, { 171,4337 }, { 172,4337 }, { 173,4337 }, { 174,4337 },
-
- { 175,4337 }, { 176,4337 }, { 177,4337 }, { 178,4337 }, { 179,4337 },
- { 180,4337 }, { 181,4337 }, { 182,4337 }, { 183,4337 }, { 184,4337 },
- { 185,4337 }, { 186,4337 }, { 187,4337 }, { 188,4337 }, { 189,4337 },
- { 190,4337 }, { 191,4337 }, { 192,4337 }, { 193,4337 }, { 194,4337 },
- { 195,4337 }, { 196,4337 }, { 197,4337 }, { 198,4337 }, { 199,4337 },
- { 200,4337 }, { 201,4337 }, { 202,4337 }, { 203,4337 }, { 204,4337 },
- { 205,4337 }, { 206,4337 }, { 207,4337 }, { 208,4337 }, { 209,4337 },
- { 210,4337 }, { 211,4337 }, { 212,4337 }, { 213,4337 }, { 214,4337 },
- { 215,4337 }, { 216,4337 }, { 217,4337 }, { 218,4337 }, { 219,4337 },
- { 220,4337 }, { 221,4337 }, { 222,4337 }, { 223,4337 }, { 224,4337 },
-
- { 225,4337 }, { 226,4337 }, { 227,4337 }, { 228,4337 }, { 229,4337 },
- { 230,4337 }, { 231,4337 }, { 232,4337 }, { 233,4337 }, { 234,4337 },
- { 235,4337 }, { 236,4337 }, { 237,4337 }, { 238,4337 }, { 239,4337 },
- { 240,4337 }, { 241,4337 }, { 242,4337 }, { 243,4337 }, { 244,4337 },
- { 245,4337 }, { 246,4337 }, { 247,4337 }, { 248,4337 }, { 249,4337 },
- { 250,4337 }, { 251,4337 }, { 252,4337 }, { 253,4337 }, { 254,4337 },
- { 255,4337 }, { 256,4337 }, {   0,   0 }, {   0,17299 }, {   1,4595 },
- {   2,4595 }, {   3,4595 }, {   4,4595 }, {   5,4595 }, {   6,4595 },
- {   7,4595 }, {   8,4595 }, {   9,4595 }, {  10,4595 }, {  11,4595 },
- {  12,4595 }, {  13,4595 }, {  14,4595 }, {  15,4595 }, {  16,4595 },
-
- {  17,4595 }, {  18,4595 }, {  19,4595 }, {  20,4595 }, {  21,4595 },
- {  22,4595 }, {  23,4595 }, {  24,4595 }, {  25,4595 }, {  26,4595 },
- {  27,4595 }, {  28,4595 }, {  29,4595 }, {  30,4595 }, {  31,4595 },
- {  32,4595 }, {  33,4595 }, {  34,4595 }, {  35,4595 }, {  36,4595 },
- {  37,4595 }, {  38,4595 }, {  39,4595 }, {  40,4595 }, {  41,4595 },
- {  42,4595 }, {  43,4595 }, {  44,4595 }, {  45,4595 }, {  46,4595 },
- {  47,4595 }, {  48,4595 }, {  49,4595 }, {  50,4595 }, {  51,4595 },
- {  52,4595 }, {  53,4595 }, {  54,4595 }, {  55,4595 }, {  56,4595 },
- {  57,4595 }, {  58,4595 }, {  59,4595 }, {  60,4595 }, {  61,4595 },
- {  62,4595 }, {  63,4595 }, {  64,4595 }, {  65,4595 }, {  66,4595 },
-
- {  67,4595 }, {  68,4595 }, {  69,4595 }, {  70,4595 }, {  71,4595 },
- {  72,4595 }, {  73,4595 }, {  74,4595 }, {  75,4595 }, {  76,4595 },
- {  77,4595 }, {  78,4595 }, {  79,4595 }, {  80,4595 }, {  81,4595 },
- {  82,4595 }, {  83,4595 }, {  84,4595 }, {  85,4595 }, {  86,4595 },
- {  87,4595 }, {  88,4595 }, {  89,4595 }, {  90,4595 }, {  91,4595 },
- {  92,4595 }, {  93,4595 }, {  94,4595 }, {  95,4595 }, {  96,4595 },
- {  97,4595 }, {  98,4595 }, {  99,4595 }, { 100,4595 }, { 101,4595 },
- { 102,4595 }, { 103,4595 }, { 104,4595 }, { 105,4595 }, { 106,4595 },
- { 107,4595 }, { 108,4595 }, { 109,4595 }, { 110,4595 }, { 111,4595 },
- { 112,4595 }, { 113,4595 }, { 114,4595 }, { 115,4595 }, { 116,4595 },
-
- { 117,4595 }, { 118,4595 }, { 119,4595 }, { 120,4595 }, { 121,4595 },
- { 122,4595 }, { 123,4852 }, { 124,4595 }, { 125,4595 }, { 126,4595 },
- { 127,4595 }, { 128,4595 }, { 129,4595 }, { 130,4595 }, { 131,4595 },
- { 132,4595 }, { 133,4595 }, { 134,4595 }, { 135,4595 }, { 136,4595 },
- { 137,4595 }, { 138,4595 }, { 139,4595 }, { 140,4595 }, { 141,4595 },
- { 142,4595 }, { 143,4595 }, { 144,4595 }, { 145,4595 }, { 146,4595 },
- { 147,4595 }, { 148,4595 }, { 149,4595 }, { 150,4595 }, { 151,4595 },
- { 152,4595 }, { 153,4595 }, { 154,4595 }, { 155,4595 }, { 156,4595 },
- { 157,4595 }, { 158,4595 }, { 159,4595 }, { 160,4595 }, { 161,4595 },
- { 162,4595 }, { 163,4595 }, { 164,4595 }, { 165,4595 }, { 166,4595 },
-
- { 167,4595 }, { 168,4595 }, { 169,4595 }, { 170,4595 }, { 171,4595 },
- { 172,4595 }, { 173,4595 }, { 174,4595 }, { 175,4595 }, { 176,4595 },
- { 177,4595 }, { 178,4595 }, { 179,4595 }, { 180,4595 }, { 181,4595 },
- { 182,4595 }, { 183,4595 }, { 184,4595 }, { 185,4595 }, { 186,4595 },
- { 187,4595 }, { 188,4595 }, { 189,4595 }, { 190,4595 }, { 191,4595 },
- { 192,4595 }, { 193,4595 }, { 194,4595 }, { 195,4595 }, { 196,4595 },
- { 197,4595 }, { 198,4595 }, { 199,4595 }, { 200,4595 }, { 201,4595 },
- { 202,4595 }, { 203,4595 }, { 204,4595 }, { 205,4595 }, { 206,4595 },
- { 207,4595 }, { 208,4595 }, { 209,4595 }, { 210,4595 }, { 211,4595 },
- { 212,4595 }, { 213,4595 }, { 214,4595 }, { 215,4595 }, { 216,4595 },
-
- { 217,4595 }, { 218,4595 }, { 219,4595 }, { 220,4595 }, { 221,4595 },
- { 222,4595 }, { 223,4595 }, { 224,4595 }, { 225,4595 }, { 226,4595 },
- { 227,4595 }, { 228,4595 }, { 229,4595 }, { 230,4595 }, { 231,4595 },
- { 232,4595 }, { 233,4595 }, { 234,4595 }, { 235,4595 }, { 236,4595 },
- { 237,4595 }, { 238,4595 }, { 239,4595 }, { 240,4595 }, { 241,4595 },
- { 242,4595 }, { 243,4595 }, { 244,4595 }, { 245,4595 }, { 246,4595 },
- { 247,4595 }, { 248,4595 }, { 249,4595 }, { 250,4595 }, { 251,4595 },
- { 252,4595 }, { 253,4595 }, { 254,4595 }, { 255,4595 }, { 256, 779 },
- {   0,   0 }, {   0,17041 }, {   1,4337 }, {   2,4337 }, {   3,4337 },
- {   4,4337 }, {   5,4337 }, {   6,4337 }, {   7,4337 }, {   8,4337 },
-
- {   9,4337 }, {  10,4337 }, {  11,4337 }, {  12,4337 }, {  13,4337 },
- {  14,4337 }, {  15,4337 }, {  16,4337 }, {  17,4337 }, {  18,4337 },
- {  19,4337 }, {  20,4337 }, {  21,4337 }, {  22,4337 }, {  23,4337 },
- {  24,4337 }, {  25,4337 }, {  26,4337 }, {  27,4337 }, {  28,4337 },
- {  29,4337 }, {  30,4337 }, {  31,4337 }, {  32,4337 }, {  33,4337 },
- {  34,4337 }, {  35,4337 }, {  36,4337 }, {  37,4337 }, {  38,4337 },
- {  39,4337 }, {  40,4337 }, {  41,4337 }, {  42,4337 }, {  43,4337 },
- {  44,4337 }, {  45,4337 }, {  46,4337 }, {  47,4337 }, {  48,4337 },
- {  49,4337 }, {  50,4337 }, {  51,4337 }, {  52,4337 }, {  53,4337 },
- {  54,4337 }, {  55,4337 }, {  56,4337 }, {  57,4337 }, {  58,4337 },
-
- {  59,4337 }, {  60,4337 }, {  61,4337 }, {  62,4337 }, {  63,4337 },
- {  64,4337 }, {  65,4337 }, {  66,4337 }, {  67,4337 }, {  68,4337 },
- {  69,4337 }, {  70,4337 }, {  71,4337 }, {  72,4337 }, {  73,4337 },
- {  74,4337 }, {  75,4337 }, {  76,4337 }, {  77,4337 }, {  78,4337 },
- {  79,4337 }, {  80,4337 }, {  81,4337 }, {  82,4337 }, {  83,4337 },
- {  84,4337 }, {  85,4337 }, {  86,4337 }, {  87,4337 }, {  88,4337 },
- {  89,4337 }, {  90,4337 }, {  91,4337 }, {  92,4337 }, {  93,4337 },
- {  94,4337 }, {  95,4337 }, {  96,4337 }, {  97,4337 }, {  98,4337 },
- {  99,4337 }, { 100,4337 }, { 101,4337 }, { 102,4337 }, { 103,4337 },
- { 104,4337 }, { 105,4337 }, { 106,4337 }, { 107,4337 }, { 108,4337 },
-
- { 109,4337 }, { 110,4337 }, { 111,4337 }, { 112,4337 }, { 113,4337 },
- { 114,4337 }, { 115,4337 }, { 116,4337 }, { 117,4337 }, { 118,4337 },
- { 119,4337 }, { 120,4337 }, { 121,4337 }, { 122,4337 }, { 123,4594 },
- { 124,4337 }, { 125,4337 }, { 126,4337 }, { 127,4337 }, { 128,4337 },
- { 129,4337 }, { 130,4337 }, { 131,4337 }, { 132,4337 }, { 133,4337 },
- { 134,4337 }, { 135,4337 }, { 136,4337 }, { 137,4337 }, { 138,4337 },
- { 139,4337 }, { 140,4337 }, { 141,4337 }, { 142,4337 }, { 143,4337 },
- { 144,4337 }, { 145,4337 }, { 146,4337 }, { 147,4337 }, { 148,4337 },
- { 149,4337 }, { 150,4337 }, { 151,4337 }, { 152,4337 }, { 153,4337 },
- { 154,4337 }, { 155,4337 }, { 156,4337 }, { 157,4337 }, { 158,4337 },
-
- { 159,4337 }, { 160,4337 }, { 161,4337 }, { 162,4337 }, { 163,4337 },
- { 164,4337 }, { 165,4337 }, { 166,4337 }, { 167,4337 }, { 168,4337 },
- { 169,4337 }, { 170,4337 }, { 171,4337 }, { 172,4337 }, { 173,4337 },
- { 174,4337 }, { 175,4337 }, { 176,4337 }, { 177,4337 }, { 178,4337 },
- { 179,4337 }, { 180,4337 }, { 181,4337 }, { 182,4337 }, { 183,4337 },
- { 184,4337 }, { 185,4337 }, { 186,4337 }, { 187,4337 }, { 188,4337 },
- { 189,4337 }, { 190,4337 }, { 191,4337 }, { 192,4337 }, { 193,4337 },
- { 194,4337 }, { 195,4337 }, { 196,4337 }, { 197,4337 }, { 198,4337 },
- { 199,4337 }, { 200,4337 }, { 201,4337 }, { 202,4337 }, { 203,4337 },
- { 204,4337 }, { 205,4337 }, { 206,4337 }, { 207,4337 }, { 208,4337 },
-
- { 209,4337 }, { 210,4337 }, { 211,4337 }, { 212,4337 }, { 213,4337 },
- { 214,4337 }, { 215,4337 }, { 216,4337 }, { 217,4337 }, { 218,4337 },
- { 219,4337 }, { 220,4337 }, { 221,4337 }, { 222,4337 }, { 223,4337 },
- { 224,4337 }, { 225,4337 }, { 226,4337 }, { 227,4337 }, { 228,4337 },
- { 229,4337 }, { 230,4337 }, { 231,4337 }, { 232,4337 }, { 233,4337 },
- { 234,4337 }, { 235,4337 }, { 236,4337 }, { 237,4337 }, { 238,4337 },
- { 239,4337 }, { 240,4337 }, { 241,4337 }, { 242,4337 }, { 243,4337 },
- { 244,4337 }, { 245,4337 }, { 246,4337 }, { 247,4337 }, { 248,4337 },
- { 249,4337 }, { 250,4337 }, { 251,4337 }, { 252,4337 }, { 253,4337 },
- { 254,4337 }, { 255,4337 }, { 256, 521 }, {   0,   2 }, {   0,16783 },
-
- {   1,4461 }, {   2,4461 }, {   3,4461 }, {   4,4461 }, {   5,4461 },
- {   6,4461 }, {   7,4461 }, {   8,4461 }, {   9,4461 }, {  10,4338 },
- {  11,4461 }, {  12,4461 }, {  13,4338 }, {  14,4461 }, {  15,4461 },
- {  16,4461 }, {  17,4461 }, {  18,4461 }, {  19,4461 }, {  20,4461 },
- {  21,4461 }, {  22,4461 }, {  23,4461 }, {  24,4461 }, {  25,4461 },
- {  26,4461 }, {  27,4461 }, {  28,4461 }, {  29,4461 }, {  30,4461 },
- {  31,4461 }, {  32,4461 }, {  33,4461 }, {  34,4461 }, {  35,4461 },
- {  36,4461 }, {  37,4461 }, {  38,4461 }, {  39,4461 }, {  40,4461 },
- {  41,4461 }, {  42,4461 }, {  43,4461 }, {  44,4461 }, {  45,4461 },
- {  46,4461 }, {  47,4461 }, {  48,4461 }, {  49,4461 }, {  50,4461 },
-
- {  51,4461 }, {  52,4461 }, {  53,4461 }, {  54,4461 }, {  55,4461 },
- {  56,4461 }, {  57,4461 }, {  58,4461 }, {  59,4461 }, {  60,4461 },
- {  61,4461 }, {  62,4461 }, {  63,4461 }, {  64,4461 }, {  65,4461 },
- {  66,4461 }, {  67,4461 }, {  68,4461 }, {  69,4461 }, {  70,4461 },
- {  71,4461 }, {  72,4461 }, {  73,4461 }, {  74,4461 }, {  75,4461 },
- {  76,4461 }, {  77,4461 }, {  78,4461 }, {  79,4461 }, {  80,4461 },
- {  81,4461 }, {  82,4461 }, {  83,4461 }, {  84,4461 }, {  85,4461 },
- {  86,4461 }, {  87,4461 }, {  88,4461 }, {  89,4461 }, {  90,4461 },
- {  91,4461 }, {  92,4340 }, {  93,4461 }, {  94,4461 }, {  95,4461 },
- {  96,4461 }, {  97,4461 }, {  98,4461 }, {  99,4461 }, { 100,4461 },
-
- { 101,4461 }, { 102,4461 }, { 103,4461 }, { 104,4461 }, { 105,4461 },
- { 106,4461 }, { 107,4461 }, { 108,4461 }, { 109,4461 }, { 110,4461 },
- { 111,4461 }, { 112,4461 }, { 113,4461 }, { 114,4461 }, { 115,4461 },
- { 116,4461 }, { 117,4461 }, { 118,4461 }, { 119,4461 }, { 120,4461 },
- { 121,4461 }, { 122,4461 }, {   0,   0 }, { 124,4461 }, { 125,4461 },
- { 126,4461 }, { 127,4461 }, { 128,4461 }, { 129,4461 }, { 130,4461 },
- { 131,4461 }, { 132,4461 }, { 133,4461 }, { 134,4461 }, { 135,4461 },
- { 136,4461 }, { 137,4461 }, { 138,4461 }, { 139,4461 }, { 140,4461 },
- { 141,4461 }, { 142,4461 }, { 143,4461 }, { 144,4461 }, { 145,4461 },
- { 146,4461 }, { 147,4461 }, { 148,4461 }, { 149,4461 }, { 150,4461 },
-
- { 151,4461 }, { 152,4461 }, { 153,4461 }, { 154,4461 }, { 155,4461 },
- { 156,4461 }, { 157,4461 }, { 158,4461 }, { 159,4461 }, { 160,4461 },
- { 161,4461 }, { 162,4461 }, { 163,4461 }, { 164,4461 }, { 165,4461 },
- { 166,4461 }, { 167,4461 }, { 168,4461 }, { 169,4461 }, { 170,4461 },
- { 171,4461 }, { 172,4461 }, { 173,4461 }, { 174,4461 }, { 175,4461 },
- { 176,4461 }, { 177,4461 }, { 178,4461 }, { 179,4461 }, { 180,4461 },
- { 181,4461 }, { 182,4461 }, { 183,4461 }, { 184,4461 }, { 185,4461 },
- { 186,4461 }, { 187,4461 }, { 188,4461 }, { 189,4461 }, { 190,4461 },
- { 191,4461 }, { 192,4461 }, { 193,4461 }, { 194,4461 }, { 195,4461 },
- { 196,4461 }, { 197,4461 }, { 198,4461 }, { 199,4461 }, { 200,4461 },
-
- { 201,4461 }, { 202,4461 }, { 203,4461 }, { 204,4461 }, { 205,4461 },
- { 206,4461 }, { 207,4461 }, { 208,4461 }, { 209,4461 }, { 210,4461 },
- { 211,4461 }, { 212,4461 }, { 213,4461 }, { 214,4461 }, { 215,4461 },
- { 216,4461 }, { 217,4461 }, { 218,4461 }, { 219,4461 }, { 220,4461 },
- { 221,4461 }, { 222,4461 }, { 223,4461 }, { 224,4461 }, { 225,4461 },
- { 226,4461 }, { 227,4461 }, { 228,4461 }, { 229,4461 }, { 230,4461 },
- { 231,4461 }, { 232,4461 }, { 233,4461 }, { 234,4461 }, { 235,4461 },
- { 236,4461 }, { 237,4461 }, { 238,4461 }, { 239,4461 }, { 240,4461 },
- { 241,4461 }, { 242,4461 }, { 243,4461 }, { 244,4461 }, { 245,4461 },
- { 246,4461 }, { 247,4461 }, { 248,4461 }, { 249,4461 }, { 250,4461 },
-
- { 251,4461 }, { 252,4461 }, { 253,4461 }, { 254,4461 }, { 255,4461 },
- {   0,   2 }, {   0,16526 }, {   0,   6 }, {   0,16524 }, {   0,   6 },
- {   0,16522 }, {   0,  51 }, {   0,16520 }, {   0,  35 }, {   0,16518 },
- {   0,   0 }, {  10,4081 }, {   0,   0 }, {   0,   0 }, {  13,4081 },
- {   0,  35 }, {   0,16511 }, {   0,   0 }, {   9,4742 }, {  10,4742 },
- {   0,  50 }, {   0,16506 }, {  13,4742 }, {   0,  14 }, {   0,16503 },
- {   9,4735 }, {  10,4735 }, {   0,  15 }, {   0,16499 }, {  13,4735 },
- {   0,  34 }, {   0,16496 }, {   0,  31 }, {   0,16494 }, {   0,  40 },
- {   0,16492 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  32,4742 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,4735 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  92,4083 }, {   0,   0 },
-
- {  92,4459 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 123,4461 }, {   0,   0 }, { 123,4461 }, {   0,   2 },
- {   0,16397 }, {   1,4075 }, {   2,4075 }, {   3,4075 }, {   4,4075 },
- {   5,4075 }, {   6,4075 }, {   7,4075 }, {   8,4075 }, {   9,4075 },
- {  10,3952 }, {  11,4075 }, {  12,4075 }, {  13,3952 }, {  14,4075 },
-
- {  15,4075 }, {  16,4075 }, {  17,4075 }, {  18,4075 }, {  19,4075 },
- {  20,4075 }, {  21,4075 }, {  22,4075 }, {  23,4075 }, {  24,4075 },
- {  25,4075 }, {  26,4075 }, {  27,4075 }, {  28,4075 }, {  29,4075 },
- {  30,4075 }, {  31,4075 }, {  32,4075 }, {  33,4075 }, {  34,4075 },
- {  35,4075 }, {  36,4075 }, {  37,4075 }, {  38,4075 }, {  39,4075 },
- {  40,4075 }, {  41,4075 }, {  42,4075 }, {  43,4075 }, {  44,4075 },
- {  45,4075 }, {  46,4075 }, {  47,4075 }, {  48,4075 }, {  49,4075 },
- {  50,4075 }, {  51,4075 }, {  52,4075 }, {  53,4075 }, {  54,4075 },
- {  55,4075 }, {  56,4075 }, {  57,4075 }, {  58,4075 }, {  59,4075 },
- {  60,4075 }, {  61,4075 }, {  62,4075 }, {  63,4075 }, {  64,4075 },
-
- {  65,4075 }, {  66,4075 }, {  67,4075 }, {  68,4075 }, {  69,4075 },
- {  70,4075 }, {  71,4075 }, {  72,4075 }, {  73,4075 }, {  74,4075 },
- {  75,4075 }, {  76,4075 }, {  77,4075 }, {  78,4075 }, {  79,4075 },
- {  80,4075 }, {  81,4075 }, {  82,4075 }, {  83,4075 }, {  84,4075 },
- {  85,4075 }, {  86,4075 }, {  87,4075 }, {  88,4075 }, {  89,4075 },
- {  90,4075 }, {  91,4075 }, {  92,3954 }, {  93,4075 }, {  94,4075 },
- {  95,4075 }, {  96,4075 }, {  97,4075 }, {  98,4075 }, {  99,4075 },
- { 100,4075 }, { 101,4075 }, { 102,4075 }, { 103,4075 }, { 104,4075 },
- { 105,4075 }, { 106,4075 }, { 107,4075 }, { 108,4075 }, { 109,4075 },
- { 110,4075 }, { 111,4075 }, { 112,4075 }, { 113,4075 }, { 114,4075 },
-
- { 115,4075 }, { 116,4075 }, { 117,4075 }, { 118,4075 }, { 119,4075 },
- { 120,4075 }, { 121,4075 }, { 122,4075 }, {   0,   0 }, { 124,4075 },
- { 125,4075 }, { 126,4075 }, { 127,4075 }, { 128,4075 }, { 129,4075 },
- { 130,4075 }, { 131,4075 }, { 132,4075 }, { 133,4075 }, { 134,4075 },
- { 135,4075 }, { 136,4075 }, { 137,4075 }, { 138,4075 }, { 139,4075 },
- { 140,4075 }, { 141,4075 }, { 142,4075 }, { 143,4075 }, { 144,4075 },
- { 145,4075 }, { 146,4075 }, { 147,4075 }, { 148,4075 }, { 149,4075 },
- { 150,4075 }, { 151,4075 }, { 152,4075 }, { 153,4075 }, { 154,4075 },
- { 155,4075 }, { 156,4075 }, { 157,4075 }, { 158,4075 }, { 159,4075 },
- { 160,4075 }, { 161,4075 }, { 162,4075 }, { 163,4075 }, { 164,4075 },
-
- { 165,4075 }, { 166,4075 }, { 167,4075 }, { 168,4075 }, { 169,4075 },
- { 170,4075 }, { 171,4075 }, { 172,4075 }, { 173,4075 }, { 174,4075 },
- { 175,4075 }, { 176,4075 }, { 177,4075 }, { 178,4075 }, { 179,4075 },
- { 180,4075 }, { 181,4075 }, { 182,4075 }, { 183,4075 }, { 184,4075 },
- { 185,4075 }, { 186,4075 }, { 187,4075 }, { 188,4075 }, { 189,4075 },
- { 190,4075 }, { 191,4075 }, { 192,4075 }, { 193,4075 }, { 194,4075 },
- { 195,4075 }, { 196,4075 }, { 197,4075 }, { 198,4075 }, { 199,4075 },
- { 200,4075 }, { 201,4075 }, { 202,4075 }, { 203,4075 }, { 204,4075 },
- { 205,4075 }, { 206,4075 }, { 207,4075 }, { 208,4075 }, { 209,4075 },
- { 210,4075 }, { 211,4075 }, { 212,4075 }, { 213,4075 }, { 214,4075 },
-
- { 215,4075 }, { 216,4075 }, { 217,4075 }, { 218,4075 }, { 219,4075 },
- { 220,4075 }, { 221,4075 }, { 222,4075 }, { 223,4075 }, { 224,4075 },
- { 225,4075 }, { 226,4075 }, { 227,4075 }, { 228,4075 }, { 229,4075 },
- { 230,4075 }, { 231,4075 }, { 232,4075 }, { 233,4075 }, { 234,4075 },
- { 235,4075 }, { 236,4075 }, { 237,4075 }, { 238,4075 }, { 239,4075 },
- { 240,4075 }, { 241,4075 }, { 242,4075 }, { 243,4075 }, { 244,4075 },
- { 245,4075 }, { 246,4075 }, { 247,4075 }, { 248,4075 }, { 249,4075 },
- { 250,4075 }, { 251,4075 }, { 252,4075 }, { 253,4075 }, { 254,4075 },
- { 255,4075 }, {   0,  50 }, {   0,16140 }, {   1,4106 }, {   2,4106 },
- {   3,4106 }, {   4,4106 }, {   5,4106 }, {   6,4106 }, {   7,4106 },
-
- {   8,4106 }, {   9,4081 }, {  10,4081 }, {  11,4106 }, {  12,4106 },
- {  13,4081 }, {  14,4106 }, {  15,4106 }, {  16,4106 }, {  17,4106 },
- {  18,4106 }, {  19,4106 }, {  20,4106 }, {  21,4106 }, {  22,4106 },
- {  23,4106 }, {  24,4106 }, {  25,4106 }, {  26,4106 }, {  27,4106 },
- {  28,4106 }, {  29,4106 }, {  30,4106 }, {  31,4106 }, {  32,4081 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,4106 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,4081 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,4106 }, {  46,4081 }, {  47,4081 },
- {  48,4106 }, {  49,4106 }, {  50,4106 }, {  51,4106 }, {  52,4106 },
- {  53,4106 }, {  54,4106 }, {  55,4106 }, {  56,4106 }, {  57,4106 },
-
- {  58,4106 }, {   0,   0 }, {   0,   0 }, {  61,4081 }, {   0,   0 },
- {  63,4106 }, {   0,   0 }, {  65,4106 }, {  66,4106 }, {  67,4106 },
- {  68,4106 }, {  69,4106 }, {  70,4106 }, {  71,4106 }, {  72,4106 },
- {  73,4106 }, {  74,4106 }, {  75,4106 }, {  76,4106 }, {  77,4106 },
- {  78,4106 }, {  79,4106 }, {  80,4106 }, {  81,4106 }, {  82,4106 },
- {  83,4106 }, {  84,4106 }, {  85,4106 }, {  86,4106 }, {  87,4106 },
- {  88,4106 }, {  89,4106 }, {  90,4106 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,4106 }, {   0,   0 }, {  97,4106 },
- {  98,4106 }, {  99,4106 }, { 100,4106 }, { 101,4106 }, { 102,4106 },
- { 103,4106 }, { 104,4106 }, { 105,4106 }, { 106,4106 }, { 107,4106 },
-
- { 108,4106 }, { 109,4106 }, { 110,4106 }, { 111,4106 }, { 112,4106 },
- { 113,4106 }, { 114,4106 }, { 115,4106 }, { 116,4106 }, { 117,4106 },
- { 118,4106 }, { 119,4106 }, { 120,4106 }, { 121,4106 }, { 122,4106 },
- {   0,   0 }, { 124,4081 }, { 125,4081 }, { 126,4081 }, { 127,4106 },
- { 128,4106 }, { 129,4106 }, { 130,4106 }, { 131,4106 }, { 132,4106 },
- { 133,4106 }, { 134,4106 }, { 135,4106 }, { 136,4106 }, { 137,4106 },
- { 138,4106 }, { 139,4106 }, { 140,4106 }, { 141,4106 }, { 142,4106 },
- { 143,4106 }, { 144,4106 }, { 145,4106 }, { 146,4106 }, { 147,4106 },
- { 148,4106 }, { 149,4106 }, { 150,4106 }, { 151,4106 }, { 152,4106 },
- { 153,4106 }, { 154,4106 }, { 155,4106 }, { 156,4106 }, { 157,4106 },
-
- { 158,4106 }, { 159,4106 }, { 160,4106 }, { 161,4106 }, { 162,4106 },
- { 163,4106 }, { 164,4106 }, { 165,4106 }, { 166,4106 }, { 167,4106 },
- { 168,4106 }, { 169,4106 }, { 170,4106 }, { 171,4106 }, { 172,4106 },
- { 173,4106 }, { 174,4106 }, { 175,4106 }, { 176,4106 }, { 177,4106 },
- { 178,4106 }, { 179,4106 }, { 180,4106 }, { 181,4106 }, { 182,4106 },
- { 183,4106 }, { 184,4106 }, { 185,4106 }, { 186,4106 }, { 187,4106 },
- { 188,4106 }, { 189,4106 }, { 190,4106 }, { 191,4106 }, { 192,4106 },
- { 193,4106 }, { 194,4106 }, { 195,4106 }, { 196,4106 }, { 197,4106 },
- { 198,4106 }, { 199,4106 }, { 200,4106 }, { 201,4106 }, { 202,4106 },
- { 203,4106 }, { 204,4106 }, { 205,4106 }, { 206,4106 }, { 207,4106 },
-
- { 208,4106 }, { 209,4106 }, { 210,4106 }, { 211,4106 }, { 212,4106 },
- { 213,4106 }, { 214,4106 }, { 215,4106 }, { 216,4106 }, { 217,4106 },
- { 218,4106 }, { 219,4106 }, { 220,4106 }, { 221,4106 }, { 222,4106 },
- { 223,4106 }, { 224,4106 }, { 225,4106 }, { 226,4106 }, { 227,4106 },
- { 228,4106 }, { 229,4106 }, { 230,4106 }, { 231,4106 }, { 232,4106 },
- { 233,4106 }, { 234,4106 }, { 235,4106 }, { 236,4106 }, { 237,4106 },
- { 238,4106 }, { 239,4106 }, { 240,4106 }, { 241,4106 }, { 242,4106 },
- { 243,4106 }, { 244,4106 }, { 245,4106 }, { 246,4106 }, { 247,4106 },
- { 248,4106 }, { 249,4106 }, { 250,4106 }, { 251,4106 }, { 252,4106 },
- { 253,4106 }, { 254,4106 }, { 255,4106 }, { 256,4106 }, {   0,  50 },
-
- {   0,15882 }, {   1,4140 }, {   2,4140 }, {   3,4140 }, {   4,4140 },
- {   5,4140 }, {   6,4140 }, {   7,4140 }, {   8,4140 }, {   9,4140 },
- {  10,4140 }, {  11,4140 }, {  12,4140 }, {  13,4140 }, {  14,4140 },
- {  15,4140 }, {  16,4140 }, {  17,4140 }, {  18,4140 }, {  19,4140 },
- {  20,4140 }, {  21,4140 }, {  22,4140 }, {  23,4140 }, {  24,4140 },
- {  25,4140 }, {  26,4140 }, {  27,4140 }, {  28,4140 }, {  29,4140 },
- {  30,4140 }, {  31,4140 }, {  32,4140 }, {  33,4140 }, {  34,4108 },
- {  35,4140 }, {  36,4140 }, {  37,4140 }, {  38,4140 }, {  39,4140 },
- {  40,4140 }, {  41,4140 }, {  42,4140 }, {  43,4140 }, {  44,4140 },
- {  45,4140 }, {  46,4140 }, {  47,4140 }, {  48,4140 }, {  49,4140 },
-
- {  50,4140 }, {  51,4140 }, {  52,4140 }, {  53,4140 }, {  54,4140 },
- {  55,4140 }, {  56,4140 }, {  57,4140 }, {  58,4140 }, {  59,4140 },
- {  60,4140 }, {  61,4140 }, {  62,4140 }, {  63,4140 }, {  64,4140 },
- {  65,4140 }, {  66,4140 }, {  67,4140 }, {  68,4140 }, {  69,4140 },
- {  70,4140 }, {  71,4140 }, {  72,4140 }, {  73,4140 }, {  74,4140 },
- {  75,4140 }, {  76,4140 }, {  77,4140 }, {  78,4140 }, {  79,4140 },
- {  80,4140 }, {  81,4140 }, {  82,4140 }, {  83,4140 }, {  84,4140 },
- {  85,4140 }, {  86,4140 }, {  87,4140 }, {  88,4140 }, {  89,4140 },
- {  90,4140 }, {  91,4140 }, {  92,4398 }, {  93,4140 }, {  94,4140 },
- {  95,4140 }, {  96,4140 }, {  97,4140 }, {  98,4140 }, {  99,4140 },
-
- { 100,4140 }, { 101,4140 }, { 102,4140 }, { 103,4140 }, { 104,4140 },
- { 105,4140 }, { 106,4140 }, { 107,4140 }, { 108,4140 }, { 109,4140 },
- { 110,4140 }, { 111,4140 }, { 112,4140 }, { 113,4140 }, { 114,4140 },
- { 115,4140 }, { 116,4140 }, { 117,4140 }, { 118,4140 }, { 119,4140 },
- { 120,4140 }, { 121,4140 }, { 122,4140 }, { 123,4140 }, { 124,4140 },
- { 125,4140 }, { 126,4140 }, { 127,4140 }, { 128,4140 }, { 129,4140 },
- { 130,4140 }, { 131,4140 }, { 132,4140 }, { 133,4140 }, { 134,4140 },
- { 135,4140 }, { 136,4140 }, { 137,4140 }, { 138,4140 }, { 139,4140 },
- { 140,4140 }, { 141,4140 }, { 142,4140 }, { 143,4140 }, { 144,4140 },
- { 145,4140 }, { 146,4140 }, { 147,4140 }, { 148,4140 }, { 149,4140 },
-
- { 150,4140 }, { 151,4140 }, { 152,4140 }, { 153,4140 }, { 154,4140 },
- { 155,4140 }, { 156,4140 }, { 157,4140 }, { 158,4140 }, { 159,4140 },
- { 160,4140 }, { 161,4140 }, { 162,4140 }, { 163,4140 }, { 164,4140 },
- { 165,4140 }, { 166,4140 }, { 167,4140 }, { 168,4140 }, { 169,4140 },
- { 170,4140 }, { 171,4140 }, { 172,4140 }, { 173,4140 }, { 174,4140 },
- { 175,4140 }, { 176,4140 }, { 177,4140 }, { 178,4140 }, { 179,4140 },
- { 180,4140 }, { 181,4140 }, { 182,4140 }, { 183,4140 }, { 184,4140 },
- { 185,4140 }, { 186,4140 }, { 187,4140 }, { 188,4140 }, { 189,4140 },
- { 190,4140 }, { 191,4140 }, { 192,4140 }, { 193,4140 }, { 194,4140 },
- { 195,4140 }, { 196,4140 }, { 197,4140 }, { 198,4140 }, { 199,4140 },
-
- { 200,4140 }, { 201,4140 }, { 202,4140 }, { 203,4140 }, { 204,4140 },
- { 205,4140 }, { 206,4140 }, { 207,4140 }, { 208,4140 }, { 209,4140 },
- { 210,4140 }, { 211,4140 }, { 212,4140 }, { 213,4140 }, { 214,4140 },
- { 215,4140 }, { 216,4140 }, { 217,4140 }, { 218,4140 }, { 219,4140 },
- { 220,4140 }, { 221,4140 }, { 222,4140 }, { 223,4140 }, { 224,4140 },
- { 225,4140 }, { 226,4140 }, { 227,4140 }, { 228,4140 }, { 229,4140 },
- { 230,4140 }, { 231,4140 }, { 232,4140 }, { 233,4140 }, { 234,4140 },
- { 235,4140 }, { 236,4140 }, { 237,4140 }, { 238,4140 }, { 239,4140 },
- { 240,4140 }, { 241,4140 }, { 242,4140 }, { 243,4140 }, { 244,4140 },
- { 245,4140 }, { 246,4140 }, { 247,4140 }, { 248,4140 }, { 249,4140 },
-
- { 250,4140 }, { 251,4140 }, { 252,4140 }, { 253,4140 }, { 254,4140 },
- { 255,4140 }, { 256,4140 }, {   0,  50 }, {   0,15624 }, {   1,4398 },
- {   2,4398 }, {   3,4398 }, {   4,4398 }, {   5,4398 }, {   6,4398 },
- {   7,4398 }, {   8,4398 }, {   9,4398 }, {  10,4398 }, {  11,4398 },
- {  12,4398 }, {  13,4398 }, {  14,4398 }, {  15,4398 }, {  16,4398 },
- {  17,4398 }, {  18,4398 }, {  19,4398 }, {  20,4398 }, {  21,4398 },
- {  22,4398 }, {  23,4398 }, {  24,4398 }, {  25,4398 }, {  26,4398 },
- {  27,4398 }, {  28,4398 }, {  29,4398 }, {  30,4398 }, {  31,4398 },
- {  32,4398 }, {  33,4398 }, {  34,4398 }, {  35,4398 }, {  36,4398 },
- {  37,4398 }, {  38,4398 }, {  39,3852 }, {  40,4398 }, {  41,4398 },
-
- {  42,4398 }, {  43,4398 }, {  44,4398 }, {  45,4398 }, {  46,4398 },
- {  47,4398 }, {  48,4398 }, {  49,4398 }, {  50,4398 }, {  51,4398 },
- {  52,4398 }, {  53,4398 }, {  54,4398 }, {  55,4398 }, {  56,4398 },
- {  57,4398 }, {  58,4398 }, {  59,4398 }, {  60,4398 }, {  61,4398 },
- {  62,4398 }, {  63,4398 }, {  64,4398 }, {  65,4398 }, {  66,4398 },
- {  67,4398 }, {  68,4398 }, {  69,4398 }, {  70,4398 }, {  71,4398 },
- {  72,4398 }, {  73,4398 }, {  74,4398 }, {  75,4398 }, {  76,4398 },
- {  77,4398 }, {  78,4398 }, {  79,4398 }, {  80,4398 }, {  81,4398 },
- {  82,4398 }, {  83,4398 }, {  84,4398 }, {  85,4398 }, {  86,4398 },
- {  87,4398 }, {  88,4398 }, {  89,4398 }, {  90,4398 }, {  91,4398 },
-
- {  92,4656 }, {  93,4398 }, {  94,4398 }, {  95,4398 }, {  96,4398 },
- {  97,4398 }, {  98,4398 }, {  99,4398 }, { 100,4398 }, { 101,4398 },
- { 102,4398 }, { 103,4398 }, { 104,4398 }, { 105,4398 }, { 106,4398 },
- { 107,4398 }, { 108,4398 }, { 109,4398 }, { 110,4398 }, { 111,4398 },
- { 112,4398 }, { 113,4398 }, { 114,4398 }, { 115,4398 }, { 116,4398 },
- { 117,4398 }, { 118,4398 }, { 119,4398 }, { 120,4398 }, { 121,4398 },
- { 122,4398 }, { 123,4398 }, { 124,4398 }, { 125,4398 }, { 126,4398 },
- { 127,4398 }, { 128,4398 }, { 129,4398 }, { 130,4398 }, { 131,4398 },
- { 132,4398 }, { 133,4398 }, { 134,4398 }, { 135,4398 }, { 136,4398 },
- { 137,4398 }, { 138,4398 }, { 139,4398 }, { 140,4398 }, { 141,4398 },
-
- { 142,4398 }, { 143,4398 }, { 144,4398 }, { 145,4398 }, { 146,4398 },
- { 147,4398 }, { 148,4398 }, { 149,4398 }, { 150,4398 }, { 151,4398 },
- { 152,4398 }, { 153,4398 }, { 154,4398 }, { 155,4398 }, { 156,4398 },
- { 157,4398 }, { 158,4398 }, { 159,4398 }, { 160,4398 }, { 161,4398 },
- { 162,4398 }, { 163,4398 }, { 164,4398 }, { 165,4398 }, { 166,4398 },
- { 167,4398 }, { 168,4398 }, { 169,4398 }, { 170,4398 }, { 171,4398 },
- { 172,4398 }, { 173,4398 }, { 174,4398 }, { 175,4398 }, { 176,4398 },
- { 177,4398 }, { 178,4398 }, { 179,4398 }, { 180,4398 }, { 181,4398 },
- { 182,4398 }, { 183,4398 }, { 184,4398 }, { 185,4398 }, { 186,4398 },
- { 187,4398 }, { 188,4398 }, { 189,4398 }, { 190,4398 }, { 191,4398 },
-
- { 192,4398 }, { 193,4398 }, { 194,4398 }, { 195,4398 }, { 196,4398 },
- { 197,4398 }, { 198,4398 }, { 199,4398 }, { 200,4398 }, { 201,4398 },
- { 202,4398 }, { 203,4398 }, { 204,4398 }, { 205,4398 }, { 206,4398 },
- { 207,4398 }, { 208,4398 }, { 209,4398 }, { 210,4398 }, { 211,4398 },
- { 212,4398 }, { 213,4398 }, { 214,4398 }, { 215,4398 }, { 216,4398 },
- { 217,4398 }, { 218,4398 }, { 219,4398 }, { 220,4398 }, { 221,4398 },
- { 222,4398 }, { 223,4398 }, { 224,4398 }, { 225,4398 }, { 226,4398 },
- { 227,4398 }, { 228,4398 }, { 229,4398 }, { 230,4398 }, { 231,4398 },
- { 232,4398 }, { 233,4398 }, { 234,4398 }, { 235,4398 }, { 236,4398 },
- { 237,4398 }, { 238,4398 }, { 239,4398 }, { 240,4398 }, { 241,4398 },
-
- { 242,4398 }, { 243,4398 }, { 244,4398 }, { 245,4398 }, { 246,4398 },
- { 247,4398 }, { 248,4398 }, { 249,4398 }, { 250,4398 }, { 251,4398 },
- { 252,4398 }, { 253,4398 }, { 254,4398 }, { 255,4398 }, { 256,4398 },
- {   0,  50 }, {   0,15366 }, {   1,3332 }, {   2,3332 }, {   3,3332 },
- {   4,3332 }, {   5,3332 }, {   6,3332 }, {   7,3332 }, {   8,3332 },
- {   9,3307 }, {  10,3307 }, {  11,3332 }, {  12,3332 }, {  13,3307 },
- {  14,3332 }, {  15,3332 }, {  16,3332 }, {  17,3332 }, {  18,3332 },
- {  19,3332 }, {  20,3332 }, {  21,3332 }, {  22,3332 }, {  23,3332 },
- {  24,3332 }, {  25,3332 }, {  26,3332 }, {  27,3332 }, {  28,3332 },
- {  29,3332 }, {  30,3332 }, {  31,3332 }, {  32,3307 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {  36,3332 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,3307 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,3332 }, {  46,3307 }, {  47,3307 }, {  48,4656 },
- {  49,4656 }, {  50,4656 }, {  51,4656 }, {  52,4656 }, {  53,4656 },
- {  54,4656 }, {  55,4656 }, {  56,4656 }, {  57,4656 }, {  58,3332 },
- {   0,   0 }, {   0,   0 }, {  61,3307 }, {   0,   0 }, {  63,3332 },
- {   0,   0 }, {  65,3332 }, {  66,3332 }, {  67,3332 }, {  68,3332 },
- {  69,3332 }, {  70,3332 }, {  71,3332 }, {  72,3332 }, {  73,3332 },
- {  74,3332 }, {  75,3332 }, {  76,3332 }, {  77,3332 }, {  78,3332 },
- {  79,3332 }, {  80,3332 }, {  81,3332 }, {  82,3332 }, {  83,3332 },
-
- {  84,3332 }, {  85,3332 }, {  86,3332 }, {  87,3332 }, {  88,3332 },
- {  89,3332 }, {  90,3332 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,3332 }, {   0,   0 }, {  97,3332 }, {  98,3332 },
- {  99,3332 }, { 100,3332 }, { 101,3332 }, { 102,3332 }, { 103,3332 },
- { 104,3332 }, { 105,3332 }, { 106,3332 }, { 107,3332 }, { 108,3332 },
- { 109,3332 }, { 110,3332 }, { 111,3332 }, { 112,3332 }, { 113,3332 },
- { 114,3332 }, { 115,3332 }, { 116,3332 }, { 117,3332 }, { 118,3332 },
- { 119,3332 }, { 120,3332 }, { 121,3332 }, { 122,3332 }, {   0,   0 },
- { 124,3307 }, { 125,3307 }, { 126,3307 }, { 127,3332 }, { 128,3332 },
- { 129,3332 }, { 130,3332 }, { 131,3332 }, { 132,3332 }, { 133,3332 },
-
- { 134,3332 }, { 135,3332 }, { 136,3332 }, { 137,3332 }, { 138,3332 },
- { 139,3332 }, { 140,3332 }, { 141,3332 }, { 142,3332 }, { 143,3332 },
- { 144,3332 }, { 145,3332 }, { 146,3332 }, { 147,3332 }, { 148,3332 },
- { 149,3332 }, { 150,3332 }, { 151,3332 }, { 152,3332 }, { 153,3332 },
- { 154,3332 }, { 155,3332 }, { 156,3332 }, { 157,3332 }, { 158,3332 },
- { 159,3332 }, { 160,3332 }, { 161,3332 }, { 162,3332 }, { 163,3332 },
- { 164,3332 }, { 165,3332 }, { 166,3332 }, { 167,3332 }, { 168,3332 },
- { 169,3332 }, { 170,3332 }, { 171,3332 }, { 172,3332 }, { 173,3332 },
- { 174,3332 }, { 175,3332 }, { 176,3332 }, { 177,3332 }, { 178,3332 },
- { 179,3332 }, { 180,3332 }, { 181,3332 }, { 182,3332 }, { 183,3332 },
-
- { 184,3332 }, { 185,3332 }, { 186,3332 }, { 187,3332 }, { 188,3332 },
- { 189,3332 }, { 190,3332 }, { 191,3332 }, { 192,3332 }, { 193,3332 },
- { 194,3332 }, { 195,3332 }, { 196,3332 }, { 197,3332 }, { 198,3332 },
- { 199,3332 }, { 200,3332 }, { 201,3332 }, { 202,3332 }, { 203,3332 },
- { 204,3332 }, { 205,3332 }, { 206,3332 }, { 207,3332 }, { 208,3332 },
- { 209,3332 }, { 210,3332 }, { 211,3332 }, { 212,3332 }, { 213,3332 },
- { 214,3332 }, { 215,3332 }, { 216,3332 }, { 217,3332 }, { 218,3332 },
- { 219,3332 }, { 220,3332 }, { 221,3332 }, { 222,3332 }, { 223,3332 },
- { 224,3332 }, { 225,3332 }, { 226,3332 }, { 227,3332 }, { 228,3332 },
- { 229,3332 }, { 230,3332 }, { 231,3332 }, { 232,3332 }, { 233,3332 },
-
- { 234,3332 }, { 235,3332 }, { 236,3332 }, { 237,3332 }, { 238,3332 },
- { 239,3332 }, { 240,3332 }, { 241,3332 }, { 242,3332 }, { 243,3332 },
- { 244,3332 }, { 245,3332 }, { 246,3332 }, { 247,3332 }, { 248,3332 },
- { 249,3332 }, { 250,3332 }, { 251,3332 }, { 252,3332 }, { 253,3332 },
- { 254,3332 }, { 255,3332 }, { 256,3332 }, {   0,  34 }, {   0,15108 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,3338 }, {  10,3338 },
- {   0,   0 }, {   0,   0 }, {  13,3338 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,  50 }, {   0,15090 }, {   0,  42 }, {   0,15088 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  32,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  46,3340 }, {  47,3338 }, {   0,  50 }, {   0,15059 }, {   0,  50 },
- {   0,15057 }, {   0,   7 }, {   0,15055 }, {   0,  51 }, {   0,15053 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  61,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,  50 }, {   0,15026 }, {   1,2992 }, {   2,2992 }, {   3,2992 },
- {   4,2992 }, {   5,2992 }, {   6,2992 }, {   7,2992 }, {   8,2992 },
- {   9,3262 }, {  10,3262 }, {  11,2992 }, {  12,2992 }, {  13,3262 },
- {  14,2992 }, {  15,2992 }, {  16,2992 }, {  17,2992 }, {  18,2992 },
- {  19,2992 }, {  20,2992 }, {  21,2992 }, {  22,2992 }, {  23,2992 },
- {  24,2992 }, {  25,2992 }, {  26,2992 }, {  27,2992 }, {  28,2992 },
- {  29,2992 }, {  30,2992 }, {  31,2992 }, {  32,3262 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,2992 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,3262 }, { 124,3338 }, { 125,3338 },
-
- { 126,3338 }, {  45,2992 }, {  46,4574 }, {  47,2967 }, {  48,4316 },
- {  49,4316 }, {  50,4316 }, {  51,4316 }, {  52,4316 }, {  53,4316 },
- {  54,4316 }, {  55,4316 }, {  56,4316 }, {  57,4316 }, {  58,2992 },
- { 123,6503 }, {   0,   0 }, {  61,2967 }, {   0,   0 }, {  63,2992 },
- {   0,   0 }, {  65,2992 }, {  66,2992 }, {  67,2992 }, {  68,2992 },
- {  69,2992 }, {  70,2992 }, {  71,2992 }, {  72,2992 }, {  73,2992 },
- {  74,2992 }, {  75,2992 }, {  76,2992 }, {  77,2992 }, {  78,2992 },
- {  79,2992 }, {  80,2992 }, {  81,2992 }, {  82,2992 }, {  83,2992 },
- {  84,2992 }, {  85,2992 }, {  86,2992 }, {  87,2992 }, {  88,2992 },
- {  89,2992 }, {  90,2992 }, {   0,   0 }, { 125,6474 }, { 126,6476 },
-
- { 125,6476 }, {  95,2992 }, { 123,6474 }, {  97,2992 }, {  98,2992 },
- {  99,2992 }, { 100,2992 }, { 101,2992 }, { 102,2992 }, { 103,2992 },
- { 104,2992 }, { 105,2992 }, { 106,2992 }, { 107,2992 }, { 108,2992 },
- { 109,2992 }, { 110,2992 }, { 111,2992 }, { 112,2992 }, { 113,2992 },
- { 114,2992 }, { 115,2992 }, { 116,2992 }, { 117,2992 }, { 118,2992 },
- { 119,2992 }, { 120,2992 }, { 121,2992 }, { 122,2992 }, {   0,   0 },
- { 124,2967 }, { 125,3262 }, { 126,3262 }, { 127,2992 }, { 128,2992 },
- { 129,2992 }, { 130,2992 }, { 131,2992 }, { 132,2992 }, { 133,2992 },
- { 134,2992 }, { 135,2992 }, { 136,2992 }, { 137,2992 }, { 138,2992 },
- { 139,2992 }, { 140,2992 }, { 141,2992 }, { 142,2992 }, { 143,2992 },
-
- { 144,2992 }, { 145,2992 }, { 146,2992 }, { 147,2992 }, { 148,2992 },
- { 149,2992 }, { 150,2992 }, { 151,2992 }, { 152,2992 }, { 153,2992 },
- { 154,2992 }, { 155,2992 }, { 156,2992 }, { 157,2992 }, { 158,2992 },
- { 159,2992 }, { 160,2992 }, { 161,2992 }, { 162,2992 }, { 163,2992 },
- { 164,2992 }, { 165,2992 }, { 166,2992 }, { 167,2992 }, { 168,2992 },
- { 169,2992 }, { 170,2992 }, { 171,2992 }, { 172,2992 }, { 173,2992 },
- { 174,2992 }, { 175,2992 }, { 176,2992 }, { 177,2992 }, { 178,2992 },
- { 179,2992 }, { 180,2992 }, { 181,2992 }, { 182,2992 }, { 183,2992 },
- { 184,2992 }, { 185,2992 }, { 186,2992 }, { 187,2992 }, { 188,2992 },
- { 189,2992 }, { 190,2992 }, { 191,2992 }, { 192,2992 }, { 193,2992 },
-
- { 194,2992 }, { 195,2992 }, { 196,2992 }, { 197,2992 }, { 198,2992 },
- { 199,2992 }, { 200,2992 }, { 201,2992 }, { 202,2992 }, { 203,2992 },
- { 204,2992 }, { 205,2992 }, { 206,2992 }, { 207,2992 }, { 208,2992 },
- { 209,2992 }, { 210,2992 }, { 211,2992 }, { 212,2992 }, { 213,2992 },
- { 214,2992 }, { 215,2992 }, { 216,2992 }, { 217,2992 }, { 218,2992 },
- { 219,2992 }, { 220,2992 }, { 221,2992 }, { 222,2992 }, { 223,2992 },
- { 224,2992 }, { 225,2992 }, { 226,2992 }, { 227,2992 }, { 228,2992 },
- { 229,2992 }, { 230,2992 }, { 231,2992 }, { 232,2992 }, { 233,2992 },
- { 234,2992 }, { 235,2992 }, { 236,2992 }, { 237,2992 }, { 238,2992 },
- { 239,2992 }, { 240,2992 }, { 241,2992 }, { 242,2992 }, { 243,2992 },
-
- { 244,2992 }, { 245,2992 }, { 246,2992 }, { 247,2992 }, { 248,2992 },
- { 249,2992 }, { 250,2992 }, { 251,2992 }, { 252,2992 }, { 253,2992 },
- { 254,2992 }, { 255,2992 }, { 256,2992 }, {   0,  50 }, {   0,14768 },
- {   1,4375 }, {   2,4375 }, {   3,4375 }, {   4,4375 }, {   5,4375 },
- {   6,4375 }, {   7,4375 }, {   8,4375 }, {   9,4375 }, {  10,4375 },
- {  11,4375 }, {  12,4375 }, {  13,4375 }, {  14,4375 }, {  15,4375 },
- {  16,4375 }, {  17,4375 }, {  18,4375 }, {  19,4375 }, {  20,4375 },
- {  21,4375 }, {  22,4375 }, {  23,4375 }, {  24,4375 }, {  25,4375 },
- {  26,4375 }, {  27,4375 }, {  28,4375 }, {  29,4375 }, {  30,4375 },
- {  31,4375 }, {  32,4375 }, {  33,4375 }, {  34,4375 }, {  35,4375 },
-
- {  36,4375 }, {  37,4375 }, {  38,4375 }, {  39,4375 }, {  40,4375 },
- {  41,4375 }, {  42,4375 }, {  43,4375 }, {  44,4375 }, {  45,4375 },
- {  46,4375 }, {  47,4375 }, {  48,4375 }, {  49,4375 }, {  50,4375 },
- {  51,4375 }, {  52,4375 }, {  53,4375 }, {  54,4375 }, {  55,4375 },
- {  56,4375 }, {  57,4375 }, {  58,4375 }, {  59,4375 }, {  60,4375 },
- {  61,4375 }, {  62,4375 }, {  63,4375 }, {  64,4375 }, {  65,4375 },
- {  66,4375 }, {  67,4375 }, {  68,4375 }, {  69,4375 }, {  70,4375 },
- {  71,4375 }, {  72,4375 }, {  73,4375 }, {  74,4375 }, {  75,4375 },
- {  76,4375 }, {  77,4375 }, {  78,4375 }, {  79,4375 }, {  80,4375 },
- {  81,4375 }, {  82,4375 }, {  83,4375 }, {  84,4375 }, {  85,4375 },
-
- {  86,4375 }, {  87,4375 }, {  88,4375 }, {  89,4375 }, {  90,4375 },
- {  91,4375 }, {  92,4633 }, {  93,3007 }, {  94,4375 }, {  95,4375 },
- {  96,4375 }, {  97,4375 }, {  98,4375 }, {  99,4375 }, { 100,4375 },
- { 101,4375 }, { 102,4375 }, { 103,4375 }, { 104,4375 }, { 105,4375 },
- { 106,4375 }, { 107,4375 }, { 108,4375 }, { 109,4375 }, { 110,4375 },
- { 111,4375 }, { 112,4375 }, { 113,4375 }, { 114,4375 }, { 115,4375 },
- { 116,4375 }, { 117,4375 }, { 118,4375 }, { 119,4375 }, { 120,4375 },
- { 121,4375 }, { 122,4375 }, { 123,4375 }, { 124,4375 }, { 125,4375 },
- { 126,4375 }, { 127,4375 }, { 128,4375 }, { 129,4375 }, { 130,4375 },
- { 131,4375 }, { 132,4375 }, { 133,4375 }, { 134,4375 }, { 135,4375 },
-
- { 136,4375 }, { 137,4375 }, { 138,4375 }, { 139,4375 }, { 140,4375 },
- { 141,4375 }, { 142,4375 }, { 143,4375 }, { 144,4375 }, { 145,4375 },
- { 146,4375 }, { 147,4375 }, { 148,4375 }, { 149,4375 }, { 150,4375 },
- { 151,4375 }, { 152,4375 }, { 153,4375 }, { 154,4375 }, { 155,4375 },
- { 156,4375 }, { 157,4375 }, { 158,4375 }, { 159,4375 }, { 160,4375 },
- { 161,4375 }, { 162,4375 }, { 163,4375 }, { 164,4375 }, { 165,4375 },
- { 166,4375 }, { 167,4375 }, { 168,4375 }, { 169,4375 }, { 170,4375 },
- { 171,4375 }, { 172,4375 }, { 173,4375 }, { 174,4375 }, { 175,4375 },
- { 176,4375 }, { 177,4375 }, { 178,4375 }, { 179,4375 }, { 180,4375 },
- { 181,4375 }, { 182,4375 }, { 183,4375 }, { 184,4375 }, { 185,4375 },
-
- { 186,4375 }, { 187,4375 }, { 188,4375 }, { 189,4375 }, { 190,4375 },
- { 191,4375 }, { 192,4375 }, { 193,4375 }, { 194,4375 }, { 195,4375 },
- { 196,4375 }, { 197,4375 }, { 198,4375 }, { 199,4375 }, { 200,4375 },
- { 201,4375 }, { 202,4375 }, { 203,4375 }, { 204,4375 }, { 205,4375 },
- { 206,4375 }, { 207,4375 }, { 208,4375 }, { 209,4375 }, { 210,4375 },
- { 211,4375 }, { 212,4375 }, { 213,4375 }, { 214,4375 }, { 215,4375 },
- { 216,4375 }, { 217,4375 }, { 218,4375 }, { 219,4375 }, { 220,4375 },
- { 221,4375 }, { 222,4375 }, { 223,4375 }, { 224,4375 }, { 225,4375 },
- { 226,4375 }, { 227,4375 }, { 228,4375 }, { 229,4375 }, { 230,4375 },
- { 231,4375 }, { 232,4375 }, { 233,4375 }, { 234,4375 }, { 235,4375 },
-
- { 236,4375 }, { 237,4375 }, { 238,4375 }, { 239,4375 }, { 240,4375 },
- { 241,4375 }, { 242,4375 }, { 243,4375 }, { 244,4375 }, { 245,4375 },
- { 246,4375 }, { 247,4375 }, { 248,4375 }, { 249,4375 }, { 250,4375 },
- { 251,4375 }, { 252,4375 }, { 253,4375 }, { 254,4375 }, { 255,4375 },
- { 256,4375 }, {   0,  50 }, {   0,14510 }, {   1,2476 }, {   2,2476 },
- {   3,2476 }, {   4,2476 }, {   5,2476 }, {   6,2476 }, {   7,2476 },
- {   8,2476 }, {   9,2451 }, {  10,2451 }, {  11,2476 }, {  12,2476 },
- {  13,2451 }, {  14,2476 }, {  15,2476 }, {  16,2476 }, {  17,2476 },
- {  18,2476 }, {  19,2476 }, {  20,2476 }, {  21,2476 }, {  22,2476 },
- {  23,2476 }, {  24,2476 }, {  25,2476 }, {  26,2476 }, {  27,2476 },
-
- {  28,2476 }, {  29,2476 }, {  30,2476 }, {  31,2476 }, {  32,2451 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,2476 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,2451 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,2476 }, {  46,2451 }, {  47,2451 },
- {  48,2476 }, {  49,2476 }, {  50,2476 }, {  51,2476 }, {  52,2476 },
- {  53,2476 }, {  54,2476 }, {  55,2476 }, {  56,2476 }, {  57,2476 },
- {  58,2476 }, {   0,   0 }, {   0,   0 }, {  61,2451 }, {   0,   0 },
- {  63,2476 }, {   0,   0 }, {  65,2476 }, {  66,2476 }, {  67,2476 },
- {  68,2476 }, {  69,2476 }, {  70,2476 }, {  71,2476 }, {  72,2476 },
- {  73,2476 }, {  74,2476 }, {  75,2476 }, {  76,2476 }, {  77,2476 },
-
- {  78,2476 }, {  79,2476 }, {  80,2476 }, {  81,2476 }, {  82,2476 },
- {  83,2476 }, {  84,2476 }, {  85,2476 }, {  86,2476 }, {  87,2476 },
- {  88,2476 }, {  89,2476 }, {  90,2476 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,2476 }, {   0,   0 }, {  97,2476 },
- {  98,2476 }, {  99,2476 }, { 100,2476 }, { 101,2476 }, { 102,2476 },
- { 103,2476 }, { 104,2476 }, { 105,2476 }, { 106,2476 }, { 107,2476 },
- { 108,2476 }, { 109,2476 }, { 110,2476 }, { 111,2476 }, { 112,2476 },
- { 113,2476 }, { 114,2476 }, { 115,4633 }, { 116,2476 }, { 117,2476 },
- { 118,2476 }, { 119,2476 }, { 120,2476 }, { 121,2476 }, { 122,2476 },
- {   0,   0 }, { 124,2451 }, { 125,2451 }, { 126,2451 }, { 127,2476 },
-
- { 128,2476 }, { 129,2476 }, { 130,2476 }, { 131,2476 }, { 132,2476 },
- { 133,2476 }, { 134,2476 }, { 135,2476 }, { 136,2476 }, { 137,2476 },
- { 138,2476 }, { 139,2476 }, { 140,2476 }, { 141,2476 }, { 142,2476 },
- { 143,2476 }, { 144,2476 }, { 145,2476 }, { 146,2476 }, { 147,2476 },
- { 148,2476 }, { 149,2476 }, { 150,2476 }, { 151,2476 }, { 152,2476 },
- { 153,2476 }, { 154,2476 }, { 155,2476 }, { 156,2476 }, { 157,2476 },
- { 158,2476 }, { 159,2476 }, { 160,2476 }, { 161,2476 }, { 162,2476 },
- { 163,2476 }, { 164,2476 }, { 165,2476 }, { 166,2476 }, { 167,2476 },
- { 168,2476 }, { 169,2476 }, { 170,2476 }, { 171,2476 }, { 172,2476 },
- { 173,2476 }, { 174,2476 }, { 175,2476 }, { 176,2476 }, { 177,2476 },
-
- { 178,2476 }, { 179,2476 }, { 180,2476 }, { 181,2476 }, { 182,2476 },
- { 183,2476 }, { 184,2476 }, { 185,2476 }, { 186,2476 }, { 187,2476 },
- { 188,2476 }, { 189,2476 }, { 190,2476 }, { 191,2476 }, { 192,2476 },
- { 193,2476 }, { 194,2476 }, { 195,2476 }, { 196,2476 }, { 197,2476 },
- { 198,2476 }, { 199,2476 }, { 200,2476 }, { 201,2476 }, { 202,2476 },
- { 203,2476 }, { 204,2476 }, { 205,2476 }, { 206,2476 }, { 207,2476 },
- { 208,2476 }, { 209,2476 }, { 210,2476 }, { 211,2476 }, { 212,2476 },
- { 213,2476 }, { 214,2476 }, { 215,2476 }, { 216,2476 }, { 217,2476 },
- { 218,2476 }, { 219,2476 }, { 220,2476 }, { 221,2476 }, { 222,2476 },
- { 223,2476 }, { 224,2476 }, { 225,2476 }, { 226,2476 }, { 227,2476 },
-
- { 228,2476 }, { 229,2476 }, { 230,2476 }, { 231,2476 }, { 232,2476 },
- { 233,2476 }, { 234,2476 }, { 235,2476 }, { 236,2476 }, { 237,2476 },
- { 238,2476 }, { 239,2476 }, { 240,2476 }, { 241,2476 }, { 242,2476 },
- { 243,2476 }, { 244,2476 }, { 245,2476 }, { 246,2476 }, { 247,2476 },
- { 248,2476 }, { 249,2476 }, { 250,2476 }, { 251,2476 }, { 252,2476 },
- { 253,2476 }, { 254,2476 }, { 255,2476 }, { 256,2476 }, {   0,  50 },
- {   0,14252 }, {   1,2218 }, {   2,2218 }, {   3,2218 }, {   4,2218 },
- {   5,2218 }, {   6,2218 }, {   7,2218 }, {   8,2218 }, {   9,2193 },
- {  10,2193 }, {  11,2218 }, {  12,2218 }, {  13,2193 }, {  14,2218 },
- {  15,2218 }, {  16,2218 }, {  17,2218 }, {  18,2218 }, {  19,2218 },
-
- {  20,2218 }, {  21,2218 }, {  22,2218 }, {  23,2218 }, {  24,2218 },
- {  25,2218 }, {  26,2218 }, {  27,2218 }, {  28,2218 }, {  29,2218 },
- {  30,2218 }, {  31,2218 }, {  32,2193 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,2218 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,2193 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,2218 }, {  46,2193 }, {  47,2193 }, {  48,2218 }, {  49,2218 },
- {  50,2218 }, {  51,2218 }, {  52,2218 }, {  53,2218 }, {  54,2218 },
- {  55,2218 }, {  56,2218 }, {  57,2218 }, {  58,2218 }, {   0,   0 },
- {   0,   0 }, {  61,2193 }, {   0,   0 }, {  63,2218 }, {   0,   0 },
- {  65,2218 }, {  66,2218 }, {  67,2218 }, {  68,2218 }, {  69,2218 },
-
- {  70,2218 }, {  71,2218 }, {  72,2218 }, {  73,2218 }, {  74,2218 },
- {  75,2218 }, {  76,2218 }, {  77,2218 }, {  78,2218 }, {  79,2218 },
- {  80,2218 }, {  81,2218 }, {  82,2218 }, {  83,2218 }, {  84,2218 },
- {  85,2218 }, {  86,2218 }, {  87,2218 }, {  88,2218 }, {  89,2218 },
- {  90,2218 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,2218 }, {   0,   0 }, {  97,4633 }, {  98,2218 }, {  99,2218 },
- { 100,2218 }, { 101,2218 }, { 102,2218 }, { 103,2218 }, { 104,2218 },
- { 105,2218 }, { 106,2218 }, { 107,2218 }, { 108,2218 }, { 109,2218 },
- { 110,2218 }, { 111,2218 }, { 112,2218 }, { 113,2218 }, { 114,2218 },
- { 115,2218 }, { 116,2218 }, { 117,2218 }, { 118,2218 }, { 119,2218 },
-
- { 120,2218 }, { 121,2218 }, { 122,2218 }, {   0,   0 }, { 124,2193 },
- { 125,2193 }, { 126,2193 }, { 127,2218 }, { 128,2218 }, { 129,2218 },
- { 130,2218 }, { 131,2218 }, { 132,2218 }, { 133,2218 }, { 134,2218 },
- { 135,2218 }, { 136,2218 }, { 137,2218 }, { 138,2218 }, { 139,2218 },
- { 140,2218 }, { 141,2218 }, { 142,2218 }, { 143,2218 }, { 144,2218 },
- { 145,2218 }, { 146,2218 }, { 147,2218 }, { 148,2218 }, { 149,2218 },
- { 150,2218 }, { 151,2218 }, { 152,2218 }, { 153,2218 }, { 154,2218 },
- { 155,2218 }, { 156,2218 }, { 157,2218 }, { 158,2218 }, { 159,2218 },
- { 160,2218 }, { 161,2218 }, { 162,2218 }, { 163,2218 }, { 164,2218 },
- { 165,2218 }, { 166,2218 }, { 167,2218 }, { 168,2218 }, { 169,2218 },
-
- { 170,2218 }, { 171,2218 }, { 172,2218 }, { 173,2218 }, { 174,2218 },
- { 175,2218 }, { 176,2218 }, { 177,2218 }, { 178,2218 }, { 179,2218 },
- { 180,2218 }, { 181,2218 }, { 182,2218 }, { 183,2218 }, { 184,2218 },
- { 185,2218 }, { 186,2218 }, { 187,2218 }, { 188,2218 }, { 189,2218 },
- { 190,2218 }, { 191,2218 }, { 192,2218 }, { 193,2218 }, { 194,2218 },
- { 195,2218 }, { 196,2218 }, { 197,2218 }, { 198,2218 }, { 199,2218 },
- { 200,2218 }, { 201,2218 }, { 202,2218 }, { 203,2218 }, { 204,2218 },
- { 205,2218 }, { 206,2218 }, { 207,2218 }, { 208,2218 }, { 209,2218 },
- { 210,2218 }, { 211,2218 }, { 212,2218 }, { 213,2218 }, { 214,2218 },
- { 215,2218 }, { 216,2218 }, { 217,2218 }, { 218,2218 }, { 219,2218 },
-
- { 220,2218 }, { 221,2218 }, { 222,2218 }, { 223,2218 }, { 224,2218 },
- { 225,2218 }, { 226,2218 }, { 227,2218 }, { 228,2218 }, { 229,2218 },
- { 230,2218 }, { 231,2218 }, { 232,2218 }, { 233,2218 }, { 234,2218 },
- { 235,2218 }, { 236,2218 }, { 237,2218 }, { 238,2218 }, { 239,2218 },
- { 240,2218 }, { 241,2218 }, { 242,2218 }, { 243,2218 }, { 244,2218 },
- { 245,2218 }, { 246,2218 }, { 247,2218 }, { 248,2218 }, { 249,2218 },
- { 250,2218 }, { 251,2218 }, { 252,2218 }, { 253,2218 }, { 254,2218 },
- { 255,2218 }, { 256,2218 }, {   0,  50 }, {   0,13994 }, {   1,1960 },
- {   2,1960 }, {   3,1960 }, {   4,1960 }, {   5,1960 }, {   6,1960 },
- {   7,1960 }, {   8,1960 }, {   9,1935 }, {  10,1935 }, {  11,1960 },
-
- {  12,1960 }, {  13,1935 }, {  14,1960 }, {  15,1960 }, {  16,1960 },
- {  17,1960 }, {  18,1960 }, {  19,1960 }, {  20,1960 }, {  21,1960 },
- {  22,1960 }, {  23,1960 }, {  24,1960 }, {  25,1960 }, {  26,1960 },
- {  27,1960 }, {  28,1960 }, {  29,1960 }, {  30,1960 }, {  31,1960 },
- {  32,1935 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,1960 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,1935 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,1960 }, {  46,1935 },
- {  47,1935 }, {  48,1960 }, {  49,1960 }, {  50,1960 }, {  51,1960 },
- {  52,1960 }, {  53,1960 }, {  54,1960 }, {  55,1960 }, {  56,1960 },
- {  57,1960 }, {  58,1960 }, {   0,   0 }, {   0,   0 }, {  61,1935 },
-
- {   0,   0 }, {  63,1960 }, {   0,   0 }, {  65,1960 }, {  66,1960 },
- {  67,1960 }, {  68,1960 }, {  69,1960 }, {  70,1960 }, {  71,1960 },
- {  72,1960 }, {  73,1960 }, {  74,1960 }, {  75,1960 }, {  76,1960 },
- {  77,1960 }, {  78,1960 }, {  79,1960 }, {  80,1960 }, {  81,1960 },
- {  82,1960 }, {  83,1960 }, {  84,1960 }, {  85,1960 }, {  86,1960 },
- {  87,1960 }, {  88,1960 }, {  89,1960 }, {  90,1960 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,1960 }, {   0,   0 },
- {  97,1960 }, {  98,1960 }, {  99,1960 }, { 100,1960 }, { 101,1960 },
- { 102,1960 }, { 103,1960 }, { 104,1960 }, { 105,1960 }, { 106,1960 },
- { 107,1960 }, { 108,1960 }, { 109,1960 }, { 110,1960 }, { 111,1960 },
-
- { 112,1960 }, { 113,1960 }, { 114,1960 }, { 115,1960 }, { 116,1960 },
- { 117,4633 }, { 118,1960 }, { 119,1960 }, { 120,1960 }, { 121,1960 },
- { 122,1960 }, {   0,   0 }, { 124,1935 }, { 125,1935 }, { 126,1935 },
- { 127,1960 }, { 128,1960 }, { 129,1960 }, { 130,1960 }, { 131,1960 },
- { 132,1960 }, { 133,1960 }, { 134,1960 }, { 135,1960 }, { 136,1960 },
- { 137,1960 }, { 138,1960 }, { 139,1960 }, { 140,1960 }, { 141,1960 },
- { 142,1960 }, { 143,1960 }, { 144,1960 }, { 145,1960 }, { 146,1960 },
- { 147,1960 }, { 148,1960 }, { 149,1960 }, { 150,1960 }, { 151,1960 },
- { 152,1960 }, { 153,1960 }, { 154,1960 }, { 155,1960 }, { 156,1960 },
- { 157,1960 }, { 158,1960 }, { 159,1960 }, { 160,1960 }, { 161,1960 },
-
- { 162,1960 }, { 163,1960 }, { 164,1960 }, { 165,1960 }, { 166,1960 },
- { 167,1960 }, { 168,1960 }, { 169,1960 }, { 170,1960 }, { 171,1960 },
- { 172,1960 }, { 173,1960 }, { 174,1960 }, { 175,1960 }, { 176,1960 },
- { 177,1960 }, { 178,1960 }, { 179,1960 }, { 180,1960 }, { 181,1960 },
- { 182,1960 }, { 183,1960 }, { 184,1960 }, { 185,1960 }, { 186,1960 },
- { 187,1960 }, { 188,1960 }, { 189,1960 }, { 190,1960 }, { 191,1960 },
- { 192,1960 }, { 193,1960 }, { 194,1960 }, { 195,1960 }, { 196,1960 },
- { 197,1960 }, { 198,1960 }, { 199,1960 }, { 200,1960 }, { 201,1960 },
- { 202,1960 }, { 203,1960 }, { 204,1960 }, { 205,1960 }, { 206,1960 },
- { 207,1960 }, { 208,1960 }, { 209,1960 }, { 210,1960 }, { 211,1960 },
-
- { 212,1960 }, { 213,1960 }, { 214,1960 }, { 215,1960 }, { 216,1960 },
- { 217,1960 }, { 218,1960 }, { 219,1960 }, { 220,1960 }, { 221,1960 },
- { 222,1960 }, { 223,1960 }, { 224,1960 }, { 225,1960 }, { 226,1960 },
- { 227,1960 }, { 228,1960 }, { 229,1960 }, { 230,1960 }, { 231,1960 },
- { 232,1960 }, { 233,1960 }, { 234,1960 }, { 235,1960 }, { 236,1960 },
- { 237,1960 }, { 238,1960 }, { 239,1960 }, { 240,1960 }, { 241,1960 },
- { 242,1960 }, { 243,1960 }, { 244,1960 }, { 245,1960 }, { 246,1960 },
- { 247,1960 }, { 248,1960 }, { 249,1960 }, { 250,1960 }, { 251,1960 },
- { 252,1960 }, { 253,1960 }, { 254,1960 }, { 255,1960 }, { 256,1960 },
- {   0,  50 }, {   0,13736 }, {   1,1702 }, {   2,1702 }, {   3,1702 },
-
- {   4,1702 }, {   5,1702 }, {   6,1702 }, {   7,1702 }, {   8,1702 },
- {   9,1677 }, {  10,1677 }, {  11,1702 }, {  12,1702 }, {  13,1677 },
- {  14,1702 }, {  15,1702 }, {  16,1702 }, {  17,1702 }, {  18,1702 },
- {  19,1702 }, {  20,1702 }, {  21,1702 }, {  22,1702 }, {  23,1702 },
- {  24,1702 }, {  25,1702 }, {  26,1702 }, {  27,1702 }, {  28,1702 },
- {  29,1702 }, {  30,1702 }, {  31,1702 }, {  32,1677 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,1702 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,1677 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,1702 }, {  46,1677 }, {  47,1677 }, {  48,1702 },
- {  49,1702 }, {  50,1702 }, {  51,1702 }, {  52,1702 }, {  53,1702 },
-
- {  54,1702 }, {  55,1702 }, {  56,1702 }, {  57,1702 }, {  58,1702 },
- {   0,   0 }, {   0,   0 }, {  61,1677 }, {   0,   0 }, {  63,1702 },
- {   0,   0 }, {  65,1702 }, {  66,1702 }, {  67,1702 }, {  68,1702 },
- {  69,1702 }, {  70,1702 }, {  71,1702 }, {  72,1702 }, {  73,1702 },
- {  74,1702 }, {  75,1702 }, {  76,1702 }, {  77,1702 }, {  78,1702 },
- {  79,1702 }, {  80,1702 }, {  81,1702 }, {  82,1702 }, {  83,1702 },
- {  84,1702 }, {  85,1702 }, {  86,1702 }, {  87,1702 }, {  88,1702 },
- {  89,1702 }, {  90,1702 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,1702 }, {   0,   0 }, {  97,1702 }, {  98,1702 },
- {  99,1702 }, { 100,1702 }, { 101,1702 }, { 102,1702 }, { 103,1702 },
-
- { 104,1702 }, { 105,1702 }, { 106,1702 }, { 107,1702 }, { 108,1702 },
- { 109,1702 }, { 110,1702 }, { 111,1702 }, { 112,1702 }, { 113,1702 },
- { 114,4633 }, { 115,1702 }, { 116,1702 }, { 117,1702 }, { 118,1702 },
- { 119,1702 }, { 120,1702 }, { 121,1702 }, { 122,1702 }, {   0,   0 },
- { 124,1677 }, { 125,1677 }, { 126,1677 }, { 127,1702 }, { 128,1702 },
- { 129,1702 }, { 130,1702 }, { 131,1702 }, { 132,1702 }, { 133,1702 },
- { 134,1702 }, { 135,1702 }, { 136,1702 }, { 137,1702 }, { 138,1702 },
- { 139,1702 }, { 140,1702 }, { 141,1702 }, { 142,1702 }, { 143,1702 },
- { 144,1702 }, { 145,1702 }, { 146,1702 }, { 147,1702 }, { 148,1702 },
- { 149,1702 }, { 150,1702 }, { 151,1702 }, { 152,1702 }, { 153,1702 },
-
- { 154,1702 }, { 155,1702 }, { 156,1702 }, { 157,1702 }, { 158,1702 },
- { 159,1702 }, { 160,1702 }, { 161,1702 }, { 162,1702 }, { 163,1702 },
- { 164,1702 }, { 165,1702 }, { 166,1702 }, { 167,1702 }, { 168,1702 },
- { 169,1702 }, { 170,1702 }, { 171,1702 }, { 172,1702 }, { 173,1702 },
- { 174,1702 }, { 175,1702 }, { 176,1702 }, { 177,1702 }, { 178,1702 },
- { 179,1702 }, { 180,1702 }, { 181,1702 }, { 182,1702 }, { 183,1702 },
- { 184,1702 }, { 185,1702 }, { 186,1702 }, { 187,1702 }, { 188,1702 },
- { 189,1702 }, { 190,1702 }, { 191,1702 }, { 192,1702 }, { 193,1702 },
- { 194,1702 }, { 195,1702 }, { 196,1702 }, { 197,1702 }, { 198,1702 },
- { 199,1702 }, { 200,1702 }, { 201,1702 }, { 202,1702 }, { 203,1702 },
-
- { 204,1702 }, { 205,1702 }, { 206,1702 }, { 207,1702 }, { 208,1702 },
- { 209,1702 }, { 210,1702 }, { 211,1702 }, { 212,1702 }, { 213,1702 },
- { 214,1702 }, { 215,1702 }, { 216,1702 }, { 217,1702 }, { 218,1702 },
- { 219,1702 }, { 220,1702 }, { 221,1702 }, { 222,1702 }, { 223,1702 },
- { 224,1702 }, { 225,1702 }, { 226,1702 }, { 227,1702 }, { 228,1702 },
- { 229,1702 }, { 230,1702 }, { 231,1702 }, { 232,1702 }, { 233,1702 },
- { 234,1702 }, { 235,1702 }, { 236,1702 }, { 237,1702 }, { 238,1702 },
- { 239,1702 }, { 240,1702 }, { 241,1702 }, { 242,1702 }, { 243,1702 },
- { 244,1702 }, { 245,1702 }, { 246,1702 }, { 247,1702 }, { 248,1702 },
- { 249,1702 }, { 250,1702 }, { 251,1702 }, { 252,1702 }, { 253,1702 },
-
- { 254,1702 }, { 255,1702 }, { 256,1702 }, {   0,  50 }, {   0,13478 },
- {   1,1444 }, {   2,1444 }, {   3,1444 }, {   4,1444 }, {   5,1444 },
- {   6,1444 }, {   7,1444 }, {   8,1444 }, {   9,1419 }, {  10,1419 },
- {  11,1444 }, {  12,1444 }, {  13,1419 }, {  14,1444 }, {  15,1444 },
- {  16,1444 }, {  17,1444 }, {  18,1444 }, {  19,1444 }, {  20,1444 },
- {  21,1444 }, {  22,1444 }, {  23,1444 }, {  24,1444 }, {  25,1444 },
- {  26,1444 }, {  27,1444 }, {  28,1444 }, {  29,1444 }, {  30,1444 },
- {  31,1444 }, {  32,1419 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,1444 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,1419 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,1444 },
-
- {  46,1419 }, {  47,1419 }, {  48,1444 }, {  49,1444 }, {  50,1444 },
- {  51,1444 }, {  52,1444 }, {  53,1444 }, {  54,1444 }, {  55,1444 },
- {  56,1444 }, {  57,1444 }, {  58,1444 }, {   0,   0 }, {   0,   0 },
- {  61,1419 }, {   0,   0 }, {  63,1444 }, {   0,   0 }, {  65,1444 },
- {  66,1444 }, {  67,1444 }, {  68,1444 }, {  69,1444 }, {  70,1444 },
- {  71,1444 }, {  72,1444 }, {  73,1444 }, {  74,1444 }, {  75,1444 },
- {  76,1444 }, {  77,1444 }, {  78,1444 }, {  79,1444 }, {  80,1444 },
- {  81,1444 }, {  82,1444 }, {  83,1444 }, {  84,1444 }, {  85,1444 },
- {  86,1444 }, {  87,1444 }, {  88,1444 }, {  89,1444 }, {  90,1444 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,1444 },
-
- {   0,   0 }, {  97,1444 }, {  98,1444 }, {  99,1444 }, { 100,1444 },
- { 101,1444 }, { 102,1444 }, { 103,1444 }, { 104,1444 }, { 105,1444 },
- { 106,1444 }, { 107,1444 }, { 108,1444 }, { 109,1444 }, { 110,4633 },
- { 111,1444 }, { 112,1444 }, { 113,1444 }, { 114,1444 }, { 115,1444 },
- { 116,1444 }, { 117,1444 }, { 118,1444 }, { 119,1444 }, { 120,1444 },
- { 121,1444 }, { 122,1444 }, {   0,   0 }, { 124,1419 }, { 125,1419 },
- { 126,1419 }, { 127,1444 }, { 128,1444 }, { 129,1444 }, { 130,1444 },
- { 131,1444 }, { 132,1444 }, { 133,1444 }, { 134,1444 }, { 135,1444 },
- { 136,1444 }, { 137,1444 }, { 138,1444 }, { 139,1444 }, { 140,1444 },
- { 141,1444 }, { 142,1444 }, { 143,1444 }, { 144,1444 }, { 145,1444 },
-
- { 146,1444 }, { 147,1444 }, { 148,1444 }, { 149,1444 }, { 150,1444 },
- { 151,1444 }, { 152,1444 }, { 153,1444 }, { 154,1444 }, { 155,1444 },
- { 156,1444 }, { 157,1444 }, { 158,1444 }, { 159,1444 }, { 160,1444 },
- { 161,1444 }, { 162,1444 }, { 163,1444 }, { 164,1444 }, { 165,1444 },
- { 166,1444 }, { 167,1444 }, { 168,1444 }, { 169,1444 }, { 170,1444 },
- { 171,1444 }, { 172,1444 }, { 173,1444 }, { 174,1444 }, { 175,1444 },
- { 176,1444 }, { 177,1444 }, { 178,1444 }, { 179,1444 }, { 180,1444 },
- { 181,1444 }, { 182,1444 }, { 183,1444 }, { 184,1444 }, { 185,1444 },
- { 186,1444 }, { 187,1444 }, { 188,1444 }, { 189,1444 }, { 190,1444 },
- { 191,1444 }, { 192,1444 }, { 193,1444 }, { 194,1444 }, { 195,1444 },
-
- { 196,1444 }, { 197,1444 }, { 198,1444 }, { 199,1444 }, { 200,1444 },
- { 201,1444 }, { 202,1444 }, { 203,1444 }, { 204,1444 }, { 205,1444 },
- { 206,1444 }, { 207,1444 }, { 208,1444 }, { 209,1444 }, { 210,1444 },
- { 211,1444 }, { 212,1444 }, { 213,1444 }, { 214,1444 }, { 215,1444 },
- { 216,1444 }, { 217,1444 }, { 218,1444 }, { 219,1444 }, { 220,1444 },
- { 221,1444 }, { 222,1444 }, { 223,1444 }, { 224,1444 }, { 225,1444 },
- { 226,1444 }, { 227,1444 }, { 228,1444 }, { 229,1444 }, { 230,1444 },
- { 231,1444 }, { 232,1444 }, { 233,1444 }, { 234,1444 }, { 235,1444 },
- { 236,1444 }, { 237,1444 }, { 238,1444 }, { 239,1444 }, { 240,1444 },
- { 241,1444 }, { 242,1444 }, { 243,1444 }, { 244,1444 }, { 245,1444 },
-
- { 246,1444 }, { 247,1444 }, { 248,1444 }, { 249,1444 }, { 250,1444 },
- { 251,1444 }, { 252,1444 }, { 253,1444 }, { 254,1444 }, { 255,1444 },
- { 256,1444 }, {   0,  51 }, {   0,13220 }, {   1,4769 }, {   2,4769 },
+ {   0,   0 }, {   0,19602 }, {   1,3278 }, {   2,3278 }, {   3,3278 },
+ {   4,3278 }, {   5,3278 }, {   6,3278 }, {   7,3278 }, {   8,3278 },
+ {   9,3278 }, {  10,3278 }, {  11,3278 }, {  12,3278 }, {  13,3278 },
+ {  14,3278 }, {  15,3278 }, {  16,3278 }, {  17,3278 }, {  18,3278 },
+ {  19,3278 }, {  20,3278 }, {  21,3278 }, {  22,3278 }, {  23,3278 },
+ {  24,3278 }, {  25,3278 }, {  26,3278 }, {  27,3278 }, {  28,3278 },
+ {  29,3278 }, {  30,3278 }, {  31,3278 }, {  32,3278 }, {  33,3278 },
+ {  34,3278 }, {  35,3278 }, {  36,3278 }, {  37,3278 }, {  38,3278 },
+ {  39,3278 }, {  40,3278 }, {  41,3278 }, {  42,3278 }, {  43,3278 },
+ {  44,3278 }, {  45,3278 }, {  46,3278 }, {  47,3278 }, {  48,3278 },
+
+ {  49,3278 }, {  50,3278 }, {  51,3278 }, {  52,3278 }, {  53,3278 },
+ {  54,3278 }, {  55,3278 }, {  56,3278 }, {  57,3278 }, {  58,3278 },
+ {  59,3278 }, {  60,3278 }, {  61,3278 }, {  62,3278 }, {  63,3278 },
+ {  64,3278 }, {  65,3278 }, {  66,3278 }, {  67,3278 }, {  68,3278 },
+ {  69,3278 }, {  70,3278 }, {  71,3278 }, {  72,3278 }, {  73,3278 },
+ {  74,3278 }, {  75,3278 }, {  76,3278 }, {  77,3278 }, {  78,3278 },
+ {  79,3278 }, {  80,3278 }, {  81,3278 }, {  82,3278 }, {  83,3278 },
+ {  84,3278 }, {  85,3278 }, {  86,3278 }, {  87,3278 }, {  88,3278 },
+ {  89,3278 }, {  90,3278 }, {  91,3278 }, {  92,3278 }, {  93,3278 },
+ {  94,3278 }, {  95,3278 }, {  96,3278 }, {  97,3278 }, {  98,3278 },
+
+ {  99,3278 }, { 100,3278 }, { 101,3278 }, { 102,3278 }, { 103,3278 },
+ { 104,3278 }, { 105,3278 }, { 106,3278 }, { 107,3278 }, { 108,3278 },
+ { 109,3278 }, { 110,3278 }, { 111,3278 }, { 112,3278 }, { 113,3278 },
+ { 114,3278 }, { 115,3278 }, { 116,3278 }, { 117,3278 }, { 118,3278 },
+ { 119,3278 }, { 120,3278 }, { 121,3278 }, { 122,3278 }, { 123,5111 },
+ { 124,3278 }, { 125,3278 }, { 126,3278 }, { 127,3278 }, { 128,3278 },
+ { 129,3278 }, { 130,3278 }, { 131,3278 }, { 132,3278 }, { 133,3278 },
+ { 134,3278 }, { 135,3278 }, { 136,3278 }, { 137,3278 }, { 138,3278 },
+ { 139,3278 }, { 140,3278 }, { 141,3278 }, { 142,3278 }, { 143,3278 },
+ { 144,3278 }, { 145,3278 }, { 146,3278 }, { 147,3278 }, { 148,3278 },
+
+ { 149,3278 }, { 150,3278 }, { 151,3278 }, { 152,3278 }, { 153,3278 },
+ { 154,3278 }, { 155,3278 }, { 156,3278 }, { 157,3278 }, { 158,3278 },
+ { 159,3278 }, { 160,3278 }, { 161,3278 }, { 162,3278 }, { 163,3278 },
+ { 164,3278 }, { 165,3278 }, { 166,3278 }, { 167,3278 }, { 168,3278 },
+ { 169,3278 }, { 170,3278 }, { 171,3278 }, { 172,3278 }, { 173,3278 },
+ { 174,3278 }, { 175,3278 }, { 176,3278 }, { 177,3278 }, { 178,3278 },
+ { 179,3278 }, { 180,3278 }, { 181,3278 }, { 182,3278 }, { 183,3278 },
+ { 184,3278 }, { 185,3278 }, { 186,3278 }, { 187,3278 }, { 188,3278 },
+ { 189,3278 }, { 190,3278 }, { 191,3278 }, { 192,3278 }, { 193,3278 },
+ { 194,3278 }, { 195,3278 }, { 196,3278 }, { 197,3278 }, { 198,3278 },
+
+ { 199,3278 }, { 200,3278 }, { 201,3278 }, { 202,3278 }, { 203,3278 },
+ { 204,3278 }, { 205,3278 }, { 206,3278 }, { 207,3278 }, { 208,3278 },
+ { 209,3278 }, { 210,3278 }, { 211,3278 }, { 212,3278 }, { 213,3278 },
+ { 214,3278 }, { 215,3278 }, { 216,3278 }, { 217,3278 }, { 218,3278 },
+ { 219,3278 }, { 220,3278 }, { 221,3278 }, { 222,3278 }, { 223,3278 },
+ { 224,3278 }, { 225,3278 }, { 226,3278 }, { 227,3278 }, { 228,3278 },
+ { 229,3278 }, { 230,3278 }, { 231,3278 }, { 232,3278 }, { 233,3278 },
+ { 234,3278 }, { 235,3278 }, { 236,3278 }, { 237,3278 }, { 238,3278 },
+ { 239,3278 }, { 240,3278 }, { 241,3278 }, { 242,3278 }, { 243,3278 },
+ { 244,3278 }, { 245,3278 }, { 246,3278 }, { 247,3278 }, { 248,3278 },
+
+ { 249,3278 }, { 250,3278 }, { 251,3278 }, { 252,3278 }, { 253,3278 },
+ { 254,3278 }, { 255,3278 }, { 256,3278 }, {   0,   0 }, {   0,19344 },
+ {   1,3020 }, {   2,3020 }, {   3,3020 }, {   4,3020 }, {   5,3020 },
+ {   6,3020 }, {   7,3020 }, {   8,3020 }, {   9,3020 }, {  10,3020 },
+ {  11,3020 }, {  12,3020 }, {  13,3020 }, {  14,3020 }, {  15,3020 },
+ {  16,3020 }, {  17,3020 }, {  18,3020 }, {  19,3020 }, {  20,3020 },
+ {  21,3020 }, {  22,3020 }, {  23,3020 }, {  24,3020 }, {  25,3020 },
+ {  26,3020 }, {  27,3020 }, {  28,3020 }, {  29,3020 }, {  30,3020 },
+ {  31,3020 }, {  32,3020 }, {  33,3020 }, {  34,3020 }, {  35,3020 },
+ {  36,3020 }, {  37,3020 }, {  38,3020 }, {  39,3020 }, {  40,3020 },
+
+ {  41,3020 }, {  42,3020 }, {  43,3020 }, {  44,3020 }, {  45,3020 },
+ {  46,3020 }, {  47,3020 }, {  48,3020 }, {  49,3020 }, {  50,3020 },
+ {  51,3020 }, {  52,3020 }, {  53,3020 }, {  54,3020 }, {  55,3020 },
+ {  56,3020 }, {  57,3020 }, {  58,3020 }, {  59,3020 }, {  60,3020 },
+ {  61,3020 }, {  62,3020 }, {  63,3020 }, {  64,3020 }, {  65,3020 },
+ {  66,3020 }, {  67,3020 }, {  68,3020 }, {  69,3020 }, {  70,3020 },
+ {  71,3020 }, {  72,3020 }, {  73,3020 }, {  74,3020 }, {  75,3020 },
+ {  76,3020 }, {  77,3020 }, {  78,3020 }, {  79,3020 }, {  80,3020 },
+ {  81,3020 }, {  82,3020 }, {  83,3020 }, {  84,3020 }, {  85,3020 },
+ {  86,3020 }, {  87,3020 }, {  88,3020 }, {  89,3020 }, {  90,3020 },
+
+ {  91,3020 }, {  92,3020 }, {  93,3020 }, {  94,3020 }, {  95,3020 },
+ {  96,3020 }, {  97,3020 }, {  98,3020 }, {  99,3020 }, { 100,3020 },
+ { 101,3020 }, { 102,3020 }, { 103,3020 }, { 104,3020 }, { 105,3020 },
+ { 106,3020 }, { 107,3020 }, { 108,3020 }, { 109,3020 }, { 110,3020 },
+ { 111,3020 }, { 112,3020 }, { 113,3020 }, { 114,3020 }, { 115,3020 },
+ { 116,3020 }, { 117,3020 }, { 118,3020 }, { 119,3020 }, { 120,3020 },
+ { 121,3020 }, { 122,3020 }, { 123,4853 }, { 124,3020 }, { 125,3020 },
+ { 126,3020 }, { 127,3020 }, { 128,3020 }, { 129,3020 }, { 130,3020 },
+ { 131,3020 }, { 132,3020 }, { 133,3020 }, { 134,3020 }, { 135,3020 },
+ { 136,3020 }, { 137,3020 }, { 138,3020 }, { 139,3020 }, { 140,3020 },
+
+ { 141,3020 }, { 142,3020 }, { 143,3020 }, { 144,3020 }, { 145,3020 },
+ { 146,3020 }, { 147,3020 }, { 148,3020 }, { 149,3020 }, { 150,3020 },
+ { 151,3020 }, { 152,3020 }, { 153,3020 }, { 154,3020 }, { 155,3020 },
+ { 156,3020 }, { 157,3020 }, { 158,3020 }, { 159,3020 }, { 160,3020 },
+ { 161,3020 }, { 162,3020 }, { 163,3020 }, { 164,3020 }, { 165,3020 },
+ { 166,3020 }, { 167,3020 }, { 168,3020 }, { 169,3020 }, { 170,3020 },
+ { 171,3020 }, { 172,3020 }, { 173,3020 }, { 174,3020 }, { 175,3020 },
+ { 176,3020 }, { 177,3020 }, { 178,3020 }, { 179,3020 }, { 180,3020 },
+ { 181,3020 }, { 182,3020 }, { 183,3020 }, { 184,3020 }, { 185,3020 },
+ { 186,3020 }, { 187,3020 }, { 188,3020 }, { 189,3020 }, { 190,3020 },
+
+ { 191,3020 }, { 192,3020 }, { 193,3020 }, { 194,3020 }, { 195,3020 },
+ { 196,3020 }, { 197,3020 }, { 198,3020 }, { 199,3020 }, { 200,3020 },
+ { 201,3020 }, { 202,3020 }, { 203,3020 }, { 204,3020 }, { 205,3020 },
+ { 206,3020 }, { 207,3020 }, { 208,3020 }, { 209,3020 }, { 210,3020 },
+ { 211,3020 }, { 212,3020 }, { 213,3020 }, { 214,3020 }, { 215,3020 },
+ { 216,3020 }, { 217,3020 }, { 218,3020 }, { 219,3020 }, { 220,3020 },
+ { 221,3020 }, { 222,3020 }, { 223,3020 }, { 224,3020 }, { 225,3020 },
+ { 226,3020 }, { 227,3020 }, { 228,3020 }, { 229,3020 }, { 230,3020 },
+ { 231,3020 }, { 232,3020 }, { 233,3020 }, { 234,3020 }, { 235,3020 },
+ { 236,3020 }, { 237,3020 }, { 238,3020 }, { 239,3020 }, { 240,3020 },
+
+ { 241,3020 }, { 242,3020 }, { 243,3020 }, { 244,3020 }, { 245,3020 },
+ { 246,3020 }, { 247,3020 }, { 248,3020 }, { 249,3020 }, { 250,3020 },
+ { 251,3020 }, { 252,3020 }, { 253,3020 }, { 254,3020 }, { 255,3020 },
+ { 256,3020 }, {   0,   0 }, {   0,19086 }, {   1,4720 }, {   2,4720 },
+ {   3,4720 }, {   4,4720 }, {   5,4720 }, {   6,4720 }, {   7,4720 },
+ {   8,4720 }, {   9,4720 }, {  10,4720 }, {  11,4720 }, {  12,4720 },
+ {  13,4720 }, {  14,4720 }, {  15,4720 }, {  16,4720 }, {  17,4720 },
+ {  18,4720 }, {  19,4720 }, {  20,4720 }, {  21,4720 }, {  22,4720 },
+ {  23,4720 }, {  24,4720 }, {  25,4720 }, {  26,4720 }, {  27,4720 },
+ {  28,4720 }, {  29,4720 }, {  30,4720 }, {  31,4720 }, {  32,4720 },
+
+ {  33,4720 }, {  34,4720 }, {  35,4720 }, {  36,4720 }, {  37,4720 },
+ {  38,4720 }, {  39,4720 }, {  40,4720 }, {  41,4720 }, {  42,4720 },
+ {  43,4720 }, {  44,4720 }, {  45,4720 }, {  46,4720 }, {  47,4720 },
+ {  48,4720 }, {  49,4720 }, {  50,4720 }, {  51,4720 }, {  52,4720 },
+ {  53,4720 }, {  54,4720 }, {  55,4720 }, {  56,4720 }, {  57,4720 },
+ {  58,4720 }, {  59,4720 }, {  60,4720 }, {  61,4720 }, {  62,4720 },
+ {  63,4720 }, {  64,4720 }, {  65,4720 }, {  66,4720 }, {  67,4720 },
+ {  68,4720 }, {  69,4720 }, {  70,4720 }, {  71,4720 }, {  72,4720 },
+ {  73,4720 }, {  74,4720 }, {  75,4720 }, {  76,4720 }, {  77,4720 },
+ {  78,4720 }, {  79,4720 }, {  80,4720 }, {  81,4720 }, {  82,4720 },
+
+ {  83,4720 }, {  84,4720 }, {  85,4720 }, {  86,4720 }, {  87,4720 },
+ {  88,4720 }, {  89,4720 }, {  90,4720 }, {  91,4720 }, {  92,4720 },
+ {  93,4720 }, {  94,4720 }, {  95,4720 }, {  96,4720 }, {  97,4720 },
+ {  98,4720 }, {  99,4720 }, { 100,4720 }, { 101,4720 }, { 102,4720 },
+ { 103,4720 }, { 104,4720 }, { 105,4720 }, { 106,4720 }, { 107,4720 },
+ { 108,4720 }, { 109,4720 }, { 110,4720 }, { 111,4720 }, { 112,4720 },
+ { 113,4720 }, { 114,4720 }, { 115,4720 }, { 116,4720 }, { 117,4720 },
+ { 118,4720 }, { 119,4720 }, { 120,4720 }, { 121,4720 }, { 122,4720 },
+ { 123,4720 }, { 124,4720 }, { 125,4978 }, { 126,4720 }, { 127,4720 },
+ { 128,4720 }, { 129,4720 }, { 130,4720 }, { 131,4720 }, { 132,4720 },
+
+ { 133,4720 }, { 134,4720 }, { 135,4720 }, { 136,4720 }, { 137,4720 },
+ { 138,4720 }, { 139,4720 }, { 140,4720 }, { 141,4720 }, { 142,4720 },
+ { 143,4720 }, { 144,4720 }, { 145,4720 }, { 146,4720 }, { 147,4720 },
+ { 148,4720 }, { 149,4720 }, { 150,4720 }, { 151,4720 }, { 152,4720 },
+ { 153,4720 }, { 154,4720 }, { 155,4720 }, { 156,4720 }, { 157,4720 },
+ { 158,4720 }, { 159,4720 }, { 160,4720 }, { 161,4720 }, { 162,4720 },
+ { 163,4720 }, { 164,4720 }, { 165,4720 }, { 166,4720 }, { 167,4720 },
+ { 168,4720 }, { 169,4720 }, { 170,4720 }, { 171,4720 }, { 172,4720 },
+ { 173,4720 }, { 174,4720 }, { 175,4720 }, { 176,4720 }, { 177,4720 },
+ { 178,4720 }, { 179,4720 }, { 180,4720 }, { 181,4720 }, { 182,4720 },
+
+ { 183,4720 }, { 184,4720 }, { 185,4720 }, { 186,4720 }, { 187,4720 },
+ { 188,4720 }, { 189,4720 }, { 190,4720 }, { 191,4720 }, { 192,4720 },
+ { 193,4720 }, { 194,4720 }, { 195,4720 }, { 196,4720 }, { 197,4720 },
+ { 198,4720 }, { 199,4720 }, { 200,4720 }, { 201,4720 }, { 202,4720 },
+ { 203,4720 }, { 204,4720 }, { 205,4720 }, { 206,4720 }, { 207,4720 },
+ { 208,4720 }, { 209,4720 }, { 210,4720 }, { 211,4720 }, { 212,4720 },
+ { 213,4720 }, { 214,4720 }, { 215,4720 }, { 216,4720 }, { 217,4720 },
+ { 218,4720 }, { 219,4720 }, { 220,4720 }, { 221,4720 }, { 222,4720 },
+ { 223,4720 }, { 224,4720 }, { 225,4720 }, { 226,4720 }, { 227,4720 },
+ { 228,4720 }, { 229,4720 }, { 230,4720 }, { 231,4720 }, { 232,4720 },
+
+ { 233,4720 }, { 234,4720 }, { 235,4720 }, { 236,4720 }, { 237,4720 },
+ { 238,4720 }, { 239,4720 }, { 240,4720 }, { 241,4720 }, { 242,4720 },
+ { 243,4720 }, { 244,4720 }, { 245,4720 }, { 246,4720 }, { 247,4720 },
+ { 248,4720 }, { 249,4720 }, { 250,4720 }, { 251,4720 }, { 252,4720 },
+ { 253,4720 }, { 254,4720 }, { 255,4720 }, { 256,4720 }, {   0,   0 },
+ {   0,18828 }, {   1,4462 }, {   2,4462 }, {   3,4462 }, {   4,4462 },
+ {   5,4462 }, {   6,4462 }, {   7,4462 }, {   8,4462 }, {   9,4462 },
+ {  10,4462 }, {  11,4462 }, {  12,4462 }, {  13,4462 }, {  14,4462 },
+ {  15,4462 }, {  16,4462 }, {  17,4462 }, {  18,4462 }, {  19,4462 },
+ {  20,4462 }, {  21,4462 }, {  22,4462 }, {  23,4462 }, {  24,4462 },
+
+ {  25,4462 }, {  26,4462 }, {  27,4462 }, {  28,4462 }, {  29,4462 },
+ {  30,4462 }, {  31,4462 }, {  32,4462 }, {  33,4462 }, {  34,4462 },
+ {  35,4462 }, {  36,4462 }, {  37,4462 }, {  38,4462 }, {  39,4462 },
+ {  40,4462 }, {  41,4462 }, {  42,4462 }, {  43,4462 }, {  44,4462 },
+ {  45,4462 }, {  46,4462 }, {  47,4462 }, {  48,4462 }, {  49,4462 },
+ {  50,4462 }, {  51,4462 }, {  52,4462 }, {  53,4462 }, {  54,4462 },
+ {  55,4462 }, {  56,4462 }, {  57,4462 }, {  58,4462 }, {  59,4462 },
+ {  60,4462 }, {  61,4462 }, {  62,4462 }, {  63,4462 }, {  64,4462 },
+ {  65,4462 }, {  66,4462 }, {  67,4462 }, {  68,4462 }, {  69,4462 },
+ {  70,4462 }, {  71,4462 }, {  72,4462 }, {  73,4462 }, {  74,4462 },
+
+ {  75,4462 }, {  76,4462 }, {  77,4462 }, {  78,4462 }, {  79,4462 },
+ {  80,4462 }, {  81,4462 }, {  82,4462 }, {  83,4462 }, {  84,4462 },
+ {  85,4462 }, {  86,4462 }, {  87,4462 }, {  88,4462 }, {  89,4462 },
+ {  90,4462 }, {  91,4462 }, {  92,4462 }, {  93,4462 }, {  94,4462 },
+ {  95,4462 }, {  96,4462 }, {  97,4462 }, {  98,4462 }, {  99,4462 },
+ { 100,4462 }, { 101,4462 }, { 102,4462 }, { 103,4462 }, { 104,4462 },
+ { 105,4462 }, { 106,4462 }, { 107,4462 }, { 108,4462 }, { 109,4462 },
+ { 110,4462 }, { 111,4462 }, { 112,4462 }, { 113,4462 }, { 114,4462 },
+ { 115,4462 }, { 116,4462 }, { 117,4462 }, { 118,4462 }, { 119,4462 },
+ { 120,4462 }, { 121,4462 }, { 122,4462 }, { 123,4462 }, { 124,4462 },
+
+ { 125,4720 }, { 126,4462 }, { 127,4462 }, { 128,4462 }, { 129,4462 },
+ { 130,4462 }, { 131,4462 }, { 132,4462 }, { 133,4462 }, { 134,4462 },
+ { 135,4462 }, { 136,4462 }, { 137,4462 }, { 138,4462 }, { 139,4462 },
+ { 140,4462 }, { 141,4462 }, { 142,4462 }, { 143,4462 }, { 144,4462 },
+ { 145,4462 }, { 146,4462 }, { 147,4462 }, { 148,4462 }, { 149,4462 },
+ { 150,4462 }, { 151,4462 }, { 152,4462 }, { 153,4462 }, { 154,4462 },
+ { 155,4462 }, { 156,4462 }, { 157,4462 }, { 158,4462 }, { 159,4462 },
+ { 160,4462 }, { 161,4462 }, { 162,4462 }, { 163,4462 }, { 164,4462 },
+ { 165,4462 }, { 166,4462 }, { 167,4462 }, { 168,4462 }, { 169,4462 },
+ { 170,4462 }, { 171,4462 }, { 172,4462 }, { 173,4462 }, { 174,4462 },
+
+ { 175,4462 }, { 176,4462 }, { 177,4462 }, { 178,4462 }, { 179,4462 },
+ { 180,4462 }, { 181,4462 }, { 182,4462 }, { 183,4462 }, { 184,4462 },
+ { 185,4462 }, { 186,4462 }, { 187,4462 }, { 188,4462 }, { 189,4462 },
+ { 190,4462 }, { 191,4462 }, { 192,4462 }, { 193,4462 }, { 194,4462 },
+ { 195,4462 }, { 196,4462 }, { 197,4462 }, { 198,4462 }, { 199,4462 },
+ { 200,4462 }, { 201,4462 }, { 202,4462 }, { 203,4462 }, { 204,4462 },
+ { 205,4462 }, { 206,4462 }, { 207,4462 }, { 208,4462 }, { 209,4462 },
+ { 210,4462 }, { 211,4462 }, { 212,4462 }, { 213,4462 }, { 214,4462 },
+ { 215,4462 }, { 216,4462 }, { 217,4462 }, { 218,4462 }, { 219,4462 },
+ { 220,4462 }, { 221,4462 }, { 222,4462 }, { 223,4462 }, { 224,4462 },
+
+ { 225,4462 }, { 226,4462 }, { 227,4462 }, { 228,4462 }, { 229,4462 },
+ { 230,4462 }, { 231,4462 }, { 232,4462 }, { 233,4462 }, { 234,4462 },
+ { 235,4462 }, { 236,4462 }, { 237,4462 }, { 238,4462 }, { 239,4462 },
+ { 240,4462 }, { 241,4462 }, { 242,4462 }, { 243,4462 }, { 244,4462 },
+ { 245,4462 }, { 246,4462 }, { 247,4462 }, { 248,4462 }, { 249,4462 },
+ { 250,4462 }, { 251,4462 }, { 252,4462 }, { 253,4462 }, { 254,4462 },
+ { 255,4462 }, { 256,4462 }, {   0,   0 }, {   0,18570 }, {   1,4720 },
+ {   2,4720 }, {   3,4720 }, {   4,4720 }, {   5,4720 }, {   6,4720 },
+ {   7,4720 }, {   8,4720 }, {   9,4720 }, {  10,4720 }, {  11,4720 },
+ {  12,4720 }, {  13,4720 }, {  14,4720 }, {  15,4720 }, {  16,4720 },
+
+ {  17,4720 }, {  18,4720 }, {  19,4720 }, {  20,4720 }, {  21,4720 },
+ {  22,4720 }, {  23,4720 }, {  24,4720 }, {  25,4720 }, {  26,4720 },
+ {  27,4720 }, {  28,4720 }, {  29,4720 }, {  30,4720 }, {  31,4720 },
+ {  32,4720 }, {  33,4720 }, {  34,4720 }, {  35,4720 }, {  36,4720 },
+ {  37,4720 }, {  38,4720 }, {  39,4720 }, {  40,4720 }, {  41,4720 },
+ {  42,4720 }, {  43,4720 }, {  44,4720 }, {  45,4720 }, {  46,4720 },
+ {  47,4720 }, {  48,4720 }, {  49,4720 }, {  50,4720 }, {  51,4720 },
+ {  52,4720 }, {  53,4720 }, {  54,4720 }, {  55,4720 }, {  56,4720 },
+ {  57,4720 }, {  58,4720 }, {  59,4720 }, {  60,4720 }, {  61,4720 },
+ {  62,4720 }, {  63,4720 }, {  64,4720 }, {  65,4720 }, {  66,4720 },
+
+ {  67,4720 }, {  68,4720 }, {  69,4720 }, {  70,4720 }, {  71,4720 },
+ {  72,4720 }, {  73,4720 }, {  74,4720 }, {  75,4720 }, {  76,4720 },
+ {  77,4720 }, {  78,4720 }, {  79,4720 }, {  80,4720 }, {  81,4720 },
+ {  82,4720 }, {  83,4720 }, {  84,4720 }, {  85,4720 }, {  86,4720 },
+ {  87,4720 }, {  88,4720 }, {  89,4720 }, {  90,4720 }, {  91,4720 },
+ {  92,4720 }, {  93,4720 }, {  94,4720 }, {  95,4720 }, {  96,4720 },
+ {  97,4720 }, {  98,4720 }, {  99,4720 }, { 100,4720 }, { 101,4720 },
+ { 102,4720 }, { 103,4720 }, { 104,4720 }, { 105,4720 }, { 106,4720 },
+ { 107,4720 }, { 108,4720 }, { 109,4720 }, { 110,4720 }, { 111,4720 },
+ { 112,4720 }, { 113,4720 }, { 114,4720 }, { 115,4720 }, { 116,4720 },
+
+ { 117,4720 }, { 118,4720 }, { 119,4720 }, { 120,4720 }, { 121,4720 },
+ { 122,4720 }, { 123,4977 }, { 124,4720 }, { 125,4720 }, { 126,4720 },
+ { 127,4720 }, { 128,4720 }, { 129,4720 }, { 130,4720 }, { 131,4720 },
+ { 132,4720 }, { 133,4720 }, { 134,4720 }, { 135,4720 }, { 136,4720 },
+ { 137,4720 }, { 138,4720 }, { 139,4720 }, { 140,4720 }, { 141,4720 },
+ { 142,4720 }, { 143,4720 }, { 144,4720 }, { 145,4720 }, { 146,4720 },
+ { 147,4720 }, { 148,4720 }, { 149,4720 }, { 150,4720 }, { 151,4720 },
+ { 152,4720 }, { 153,4720 }, { 154,4720 }, { 155,4720 }, { 156,4720 },
+ { 157,4720 }, { 158,4720 }, { 159,4720 }, { 160,4720 }, { 161,4720 },
+ { 162,4720 }, { 163,4720 }, { 164,4720 }, { 165,4720 }, { 166,4720 },
+
+ { 167,4720 }, { 168,4720 }, { 169,4720 }, { 170,4720 }, { 171,4720 },
+ { 172,4720 }, { 173,4720 }, { 174,4720 }, { 175,4720 }, { 176,4720 },
+ { 177,4720 }, { 178,4720 }, { 179,4720 }, { 180,4720 }, { 181,4720 },
+ { 182,4720 }, { 183,4720 }, { 184,4720 }, { 185,4720 }, { 186,4720 },
+ { 187,4720 }, { 188,4720 }, { 189,4720 }, { 190,4720 }, { 191,4720 },
+ { 192,4720 }, { 193,4720 }, { 194,4720 }, { 195,4720 }, { 196,4720 },
+ { 197,4720 }, { 198,4720 }, { 199,4720 }, { 200,4720 }, { 201,4720 },
+ { 202,4720 }, { 203,4720 }, { 204,4720 }, { 205,4720 }, { 206,4720 },
+ { 207,4720 }, { 208,4720 }, { 209,4720 }, { 210,4720 }, { 211,4720 },
+ { 212,4720 }, { 213,4720 }, { 214,4720 }, { 215,4720 }, { 216,4720 },
+
+ { 217,4720 }, { 218,4720 }, { 219,4720 }, { 220,4720 }, { 221,4720 },
+ { 222,4720 }, { 223,4720 }, { 224,4720 }, { 225,4720 }, { 226,4720 },
+ { 227,4720 }, { 228,4720 }, { 229,4720 }, { 230,4720 }, { 231,4720 },
+ { 232,4720 }, { 233,4720 }, { 234,4720 }, { 235,4720 }, { 236,4720 },
+ { 237,4720 }, { 238,4720 }, { 239,4720 }, { 240,4720 }, { 241,4720 },
+ { 242,4720 }, { 243,4720 }, { 244,4720 }, { 245,4720 }, { 246,4720 },
+ { 247,4720 }, { 248,4720 }, { 249,4720 }, { 250,4720 }, { 251,4720 },
+ { 252,4720 }, { 253,4720 }, { 254,4720 }, { 255,4720 }, { 256, 779 },
+ {   0,   0 }, {   0,18312 }, {   1,4462 }, {   2,4462 }, {   3,4462 },
+ {   4,4462 }, {   5,4462 }, {   6,4462 }, {   7,4462 }, {   8,4462 },
+
+ {   9,4462 }, {  10,4462 }, {  11,4462 }, {  12,4462 }, {  13,4462 },
+ {  14,4462 }, {  15,4462 }, {  16,4462 }, {  17,4462 }, {  18,4462 },
+ {  19,4462 }, {  20,4462 }, {  21,4462 }, {  22,4462 }, {  23,4462 },
+ {  24,4462 }, {  25,4462 }, {  26,4462 }, {  27,4462 }, {  28,4462 },
+ {  29,4462 }, {  30,4462 }, {  31,4462 }, {  32,4462 }, {  33,4462 },
+ {  34,4462 }, {  35,4462 }, {  36,4462 }, {  37,4462 }, {  38,4462 },
+ {  39,4462 }, {  40,4462 }, {  41,4462 }, {  42,4462 }, {  43,4462 },
+ {  44,4462 }, {  45,4462 }, {  46,4462 }, {  47,4462 }, {  48,4462 },
+ {  49,4462 }, {  50,4462 }, {  51,4462 }, {  52,4462 }, {  53,4462 },
+ {  54,4462 }, {  55,4462 }, {  56,4462 }, {  57,4462 }, {  58,4462 },
+
+ {  59,4462 }, {  60,4462 }, {  61,4462 }, {  62,4462 }, {  63,4462 },
+ {  64,4462 }, {  65,4462 }, {  66,4462 }, {  67,4462 }, {  68,4462 },
+ {  69,4462 }, {  70,4462 }, {  71,4462 }, {  72,4462 }, {  73,4462 },
+ {  74,4462 }, {  75,4462 }, {  76,4462 }, {  77,4462 }, {  78,4462 },
+ {  79,4462 }, {  80,4462 }, {  81,4462 }, {  82,4462 }, {  83,4462 },
+ {  84,4462 }, {  85,4462 }, {  86,4462 }, {  87,4462 }, {  88,4462 },
+ {  89,4462 }, {  90,4462 }, {  91,4462 }, {  92,4462 }, {  93,4462 },
+ {  94,4462 }, {  95,4462 }, {  96,4462 }, {  97,4462 }, {  98,4462 },
+ {  99,4462 }, { 100,4462 }, { 101,4462 }, { 102,4462 }, { 103,4462 },
+ { 104,4462 }, { 105,4462 }, { 106,4462 }, { 107,4462 }, { 108,4462 },
+
+ { 109,4462 }, { 110,4462 }, { 111,4462 }, { 112,4462 }, { 113,4462 },
+ { 114,4462 }, { 115,4462 }, { 116,4462 }, { 117,4462 }, { 118,4462 },
+ { 119,4462 }, { 120,4462 }, { 121,4462 }, { 122,4462 }, { 123,4719 },
+ { 124,4462 }, { 125,4462 }, { 126,4462 }, { 127,4462 }, { 128,4462 },
+ { 129,4462 }, { 130,4462 }, { 131,4462 }, { 132,4462 }, { 133,4462 },
+ { 134,4462 }, { 135,4462 }, { 136,4462 }, { 137,4462 }, { 138,4462 },
+ { 139,4462 }, { 140,4462 }, { 141,4462 }, { 142,4462 }, { 143,4462 },
+ { 144,4462 }, { 145,4462 }, { 146,4462 }, { 147,4462 }, { 148,4462 },
+ { 149,4462 }, { 150,4462 }, { 151,4462 }, { 152,4462 }, { 153,4462 },
+ { 154,4462 }, { 155,4462 }, { 156,4462 }, { 157,4462 }, { 158,4462 },
+
+ { 159,4462 }, { 160,4462 }, { 161,4462 }, { 162,4462 }, { 163,4462 },
+ { 164,4462 }, { 165,4462 }, { 166,4462 }, { 167,4462 }, { 168,4462 },
+ { 169,4462 }, { 170,4462 }, { 171,4462 }, { 172,4462 }, { 173,4462 },
+ { 174,4462 }, { 175,4462 }, { 176,4462 }, { 177,4462 }, { 178,4462 },
+ { 179,4462 }, { 180,4462 }, { 181,4462 }, { 182,4462 }, { 183,4462 },
+ { 184,4462 }, { 185,4462 }, { 186,4462 }, { 187,4462 }, { 188,4462 },
+ { 189,4462 }, { 190,4462 }, { 191,4462 }, { 192,4462 }, { 193,4462 },
+ { 194,4462 }, { 195,4462 }, { 196,4462 }, { 197,4462 }, { 198,4462 },
+ { 199,4462 }, { 200,4462 }, { 201,4462 }, { 202,4462 }, { 203,4462 },
+ { 204,4462 }, { 205,4462 }, { 206,4462 }, { 207,4462 }, { 208,4462 },
+
+ { 209,4462 }, { 210,4462 }, { 211,4462 }, { 212,4462 }, { 213,4462 },
+ { 214,4462 }, { 215,4462 }, { 216,4462 }, { 217,4462 }, { 218,4462 },
+ { 219,4462 }, { 220,4462 }, { 221,4462 }, { 222,4462 }, { 223,4462 },
+ { 224,4462 }, { 225,4462 }, { 226,4462 }, { 227,4462 }, { 228,4462 },
+ { 229,4462 }, { 230,4462 }, { 231,4462 }, { 232,4462 }, { 233,4462 },
+ { 234,4462 }, { 235,4462 }, { 236,4462 }, { 237,4462 }, { 238,4462 },
+ { 239,4462 }, { 240,4462 }, { 241,4462 }, { 242,4462 }, { 243,4462 },
+ { 244,4462 }, { 245,4462 }, { 246,4462 }, { 247,4462 }, { 248,4462 },
+ { 249,4462 }, { 250,4462 }, { 251,4462 }, { 252,4462 }, { 253,4462 },
+ { 254,4462 }, { 255,4462 }, { 256, 521 }, {   0,   2 }, {   0,18054 },
+
+ {   1,4586 }, {   2,4586 }, {   3,4586 }, {   4,4586 }, {   5,4586 },
+ {   6,4586 }, {   7,4586 }, {   8,4586 }, {   9,4586 }, {  10,4463 },
+ {  11,4586 }, {  12,4586 }, {  13,4463 }, {  14,4586 }, {  15,4586 },
+ {  16,4586 }, {  17,4586 }, {  18,4586 }, {  19,4586 }, {  20,4586 },
+ {  21,4586 }, {  22,4586 }, {  23,4586 }, {  24,4586 }, {  25,4586 },
+ {  26,4586 }, {  27,4586 }, {  28,4586 }, {  29,4586 }, {  30,4586 },
+ {  31,4586 }, {  32,4586 }, {  33,4586 }, {  34,4586 }, {  35,4586 },
+ {  36,4586 }, {  37,4586 }, {  38,4586 }, {  39,4586 }, {  40,4586 },
+ {  41,4586 }, {  42,4586 }, {  43,4586 }, {  44,4586 }, {  45,4586 },
+ {  46,4586 }, {  47,4586 }, {  48,4586 }, {  49,4586 }, {  50,4586 },
+
+ {  51,4586 }, {  52,4586 }, {  53,4586 }, {  54,4586 }, {  55,4586 },
+ {  56,4586 }, {  57,4586 }, {  58,4586 }, {  59,4586 }, {  60,4586 },
+ {  61,4586 }, {  62,4586 }, {  63,4586 }, {  64,4586 }, {  65,4586 },
+ {  66,4586 }, {  67,4586 }, {  68,4586 }, {  69,4586 }, {  70,4586 },
+ {  71,4586 }, {  72,4586 }, {  73,4586 }, {  74,4586 }, {  75,4586 },
+ {  76,4586 }, {  77,4586 }, {  78,4586 }, {  79,4586 }, {  80,4586 },
+ {  81,4586 }, {  82,4586 }, {  83,4586 }, {  84,4586 }, {  85,4586 },
+ {  86,4586 }, {  87,4586 }, {  88,4586 }, {  89,4586 }, {  90,4586 },
+ {  91,4586 }, {  92,4465 }, {  93,4586 }, {  94,4586 }, {  95,4586 },
+ {  96,4586 }, {  97,4586 }, {  98,4586 }, {  99,4586 }, { 100,4586 },
+
+ { 101,4586 }, { 102,4586 }, { 103,4586 }, { 104,4586 }, { 105,4586 },
+ { 106,4586 }, { 107,4586 }, { 108,4586 }, { 109,4586 }, { 110,4586 },
+ { 111,4586 }, { 112,4586 }, { 113,4586 }, { 114,4586 }, { 115,4586 },
+ { 116,4586 }, { 117,4586 }, { 118,4586 }, { 119,4586 }, { 120,4586 },
+ { 121,4586 }, { 122,4586 }, {   0,   0 }, { 124,4586 }, { 125,4586 },
+ { 126,4586 }, { 127,4586 }, { 128,4586 }, { 129,4586 }, { 130,4586 },
+ { 131,4586 }, { 132,4586 }, { 133,4586 }, { 134,4586 }, { 135,4586 },
+ { 136,4586 }, { 137,4586 }, { 138,4586 }, { 139,4586 }, { 140,4586 },
+ { 141,4586 }, { 142,4586 }, { 143,4586 }, { 144,4586 }, { 145,4586 },
+ { 146,4586 }, { 147,4586 }, { 148,4586 }, { 149,4586 }, { 150,4586 },
+
+ { 151,4586 }, { 152,4586 }, { 153,4586 }, { 154,4586 }, { 155,4586 },
+ { 156,4586 }, { 157,4586 }, { 158,4586 }, { 159,4586 }, { 160,4586 },
+ { 161,4586 }, { 162,4586 }, { 163,4586 }, { 164,4586 }, { 165,4586 },
+ { 166,4586 }, { 167,4586 }, { 168,4586 }, { 169,4586 }, { 170,4586 },
+ { 171,4586 }, { 172,4586 }, { 173,4586 }, { 174,4586 }, { 175,4586 },
+ { 176,4586 }, { 177,4586 }, { 178,4586 }, { 179,4586 }, { 180,4586 },
+ { 181,4586 }, { 182,4586 }, { 183,4586 }, { 184,4586 }, { 185,4586 },
+ { 186,4586 }, { 187,4586 }, { 188,4586 }, { 189,4586 }, { 190,4586 },
+ { 191,4586 }, { 192,4586 }, { 193,4586 }, { 194,4586 }, { 195,4586 },
+ { 196,4586 }, { 197,4586 }, { 198,4586 }, { 199,4586 }, { 200,4586 },
+
+ { 201,4586 }, { 202,4586 }, { 203,4586 }, { 204,4586 }, { 205,4586 },
+ { 206,4586 }, { 207,4586 }, { 208,4586 }, { 209,4586 }, { 210,4586 },
+ { 211,4586 }, { 212,4586 }, { 213,4586 }, { 214,4586 }, { 215,4586 },
+ { 216,4586 }, { 217,4586 }, { 218,4586 }, { 219,4586 }, { 220,4586 },
+ { 221,4586 }, { 222,4586 }, { 223,4586 }, { 224,4586 }, { 225,4586 },
+ { 226,4586 }, { 227,4586 }, { 228,4586 }, { 229,4586 }, { 230,4586 },
+ { 231,4586 }, { 232,4586 }, { 233,4586 }, { 234,4586 }, { 235,4586 },
+ { 236,4586 }, { 237,4586 }, { 238,4586 }, { 239,4586 }, { 240,4586 },
+ { 241,4586 }, { 242,4586 }, { 243,4586 }, { 244,4586 }, { 245,4586 },
+ { 246,4586 }, { 247,4586 }, { 248,4586 }, { 249,4586 }, { 250,4586 },
+
+ { 251,4586 }, { 252,4586 }, { 253,4586 }, { 254,4586 }, { 255,4586 },
+ {   0,   2 }, {   0,17797 }, {   0,   6 }, {   0,17795 }, {   0,   6 },
+ {   0,17793 }, {   0,  52 }, {   0,17791 }, {   0,  36 }, {   0,17789 },
+ {   0,   0 }, {  10,4206 }, {   0,   0 }, {   0,   0 }, {  13,4206 },
+ {   0,  36 }, {   0,17782 }, {   0,   0 }, {   9,4867 }, {  10,4867 },
+ {   0,  51 }, {   0,17777 }, {  13,4867 }, {   0,  15 }, {   0,17774 },
+ {   9,4860 }, {  10,4860 }, {   0,  16 }, {   0,17770 }, {  13,4860 },
+ {   0,  35 }, {   0,17767 }, {   0,  32 }, {   0,17765 }, {   0,  41 },
+ {   0,17763 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  32,4867 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,4860 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  92,4208 }, {   0,   0 },
+
+ {  92,4584 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 123,4586 }, {   0,   0 }, { 123,4586 }, {   0,   2 },
+ {   0,17668 }, {   1,4200 }, {   2,4200 }, {   3,4200 }, {   4,4200 },
+ {   5,4200 }, {   6,4200 }, {   7,4200 }, {   8,4200 }, {   9,4200 },
+ {  10,4077 }, {  11,4200 }, {  12,4200 }, {  13,4077 }, {  14,4200 },
+
+ {  15,4200 }, {  16,4200 }, {  17,4200 }, {  18,4200 }, {  19,4200 },
+ {  20,4200 }, {  21,4200 }, {  22,4200 }, {  23,4200 }, {  24,4200 },
+ {  25,4200 }, {  26,4200 }, {  27,4200 }, {  28,4200 }, {  29,4200 },
+ {  30,4200 }, {  31,4200 }, {  32,4200 }, {  33,4200 }, {  34,4200 },
+ {  35,4200 }, {  36,4200 }, {  37,4200 }, {  38,4200 }, {  39,4200 },
+ {  40,4200 }, {  41,4200 }, {  42,4200 }, {  43,4200 }, {  44,4200 },
+ {  45,4200 }, {  46,4200 }, {  47,4200 }, {  48,4200 }, {  49,4200 },
+ {  50,4200 }, {  51,4200 }, {  52,4200 }, {  53,4200 }, {  54,4200 },
+ {  55,4200 }, {  56,4200 }, {  57,4200 }, {  58,4200 }, {  59,4200 },
+ {  60,4200 }, {  61,4200 }, {  62,4200 }, {  63,4200 }, {  64,4200 },
+
+ {  65,4200 }, {  66,4200 }, {  67,4200 }, {  68,4200 }, {  69,4200 },
+ {  70,4200 }, {  71,4200 }, {  72,4200 }, {  73,4200 }, {  74,4200 },
+ {  75,4200 }, {  76,4200 }, {  77,4200 }, {  78,4200 }, {  79,4200 },
+ {  80,4200 }, {  81,4200 }, {  82,4200 }, {  83,4200 }, {  84,4200 },
+ {  85,4200 }, {  86,4200 }, {  87,4200 }, {  88,4200 }, {  89,4200 },
+ {  90,4200 }, {  91,4200 }, {  92,4079 }, {  93,4200 }, {  94,4200 },
+ {  95,4200 }, {  96,4200 }, {  97,4200 }, {  98,4200 }, {  99,4200 },
+ { 100,4200 }, { 101,4200 }, { 102,4200 }, { 103,4200 }, { 104,4200 },
+ { 105,4200 }, { 106,4200 }, { 107,4200 }, { 108,4200 }, { 109,4200 },
+ { 110,4200 }, { 111,4200 }, { 112,4200 }, { 113,4200 }, { 114,4200 },
+
+ { 115,4200 }, { 116,4200 }, { 117,4200 }, { 118,4200 }, { 119,4200 },
+ { 120,4200 }, { 121,4200 }, { 122,4200 }, {   0,   0 }, { 124,4200 },
+ { 125,4200 }, { 126,4200 }, { 127,4200 }, { 128,4200 }, { 129,4200 },
+ { 130,4200 }, { 131,4200 }, { 132,4200 }, { 133,4200 }, { 134,4200 },
+ { 135,4200 }, { 136,4200 }, { 137,4200 }, { 138,4200 }, { 139,4200 },
+ { 140,4200 }, { 141,4200 }, { 142,4200 }, { 143,4200 }, { 144,4200 },
+ { 145,4200 }, { 146,4200 }, { 147,4200 }, { 148,4200 }, { 149,4200 },
+ { 150,4200 }, { 151,4200 }, { 152,4200 }, { 153,4200 }, { 154,4200 },
+ { 155,4200 }, { 156,4200 }, { 157,4200 }, { 158,4200 }, { 159,4200 },
+ { 160,4200 }, { 161,4200 }, { 162,4200 }, { 163,4200 }, { 164,4200 },
+
+ { 165,4200 }, { 166,4200 }, { 167,4200 }, { 168,4200 }, { 169,4200 },
+ { 170,4200 }, { 171,4200 }, { 172,4200 }, { 173,4200 }, { 174,4200 },
+ { 175,4200 }, { 176,4200 }, { 177,4200 }, { 178,4200 }, { 179,4200 },
+ { 180,4200 }, { 181,4200 }, { 182,4200 }, { 183,4200 }, { 184,4200 },
+ { 185,4200 }, { 186,4200 }, { 187,4200 }, { 188,4200 }, { 189,4200 },
+ { 190,4200 }, { 191,4200 }, { 192,4200 }, { 193,4200 }, { 194,4200 },
+ { 195,4200 }, { 196,4200 }, { 197,4200 }, { 198,4200 }, { 199,4200 },
+ { 200,4200 }, { 201,4200 }, { 202,4200 }, { 203,4200 }, { 204,4200 },
+ { 205,4200 }, { 206,4200 }, { 207,4200 }, { 208,4200 }, { 209,4200 },
+ { 210,4200 }, { 211,4200 }, { 212,4200 }, { 213,4200 }, { 214,4200 },
+
+ { 215,4200 }, { 216,4200 }, { 217,4200 }, { 218,4200 }, { 219,4200 },
+ { 220,4200 }, { 221,4200 }, { 222,4200 }, { 223,4200 }, { 224,4200 },
+ { 225,4200 }, { 226,4200 }, { 227,4200 }, { 228,4200 }, { 229,4200 },
+ { 230,4200 }, { 231,4200 }, { 232,4200 }, { 233,4200 }, { 234,4200 },
+ { 235,4200 }, { 236,4200 }, { 237,4200 }, { 238,4200 }, { 239,4200 },
+ { 240,4200 }, { 241,4200 }, { 242,4200 }, { 243,4200 }, { 244,4200 },
+ { 245,4200 }, { 246,4200 }, { 247,4200 }, { 248,4200 }, { 249,4200 },
+ { 250,4200 }, { 251,4200 }, { 252,4200 }, { 253,4200 }, { 254,4200 },
+ { 255,4200 }, {   0,  51 }, {   0,17411 }, {   1,4231 }, {   2,4231 },
+ {   3,4231 }, {   4,4231 }, {   5,4231 }, {   6,4231 }, {   7,4231 },
+
+ {   8,4231 }, {   9,4206 }, {  10,4206 }, {  11,4231 }, {  12,4231 },
+ {  13,4206 }, {  14,4231 }, {  15,4231 }, {  16,4231 }, {  17,4231 },
+ {  18,4231 }, {  19,4231 }, {  20,4231 }, {  21,4231 }, {  22,4231 },
+ {  23,4231 }, {  24,4231 }, {  25,4231 }, {  26,4231 }, {  27,4231 },
+ {  28,4231 }, {  29,4231 }, {  30,4231 }, {  31,4231 }, {  32,4206 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,4231 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,4206 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,4231 }, {  46,4206 }, {  47,4206 },
+ {  48,4231 }, {  49,4231 }, {  50,4231 }, {  51,4231 }, {  52,4231 },
+ {  53,4231 }, {  54,4231 }, {  55,4231 }, {  56,4231 }, {  57,4231 },
+
+ {  58,4231 }, {   0,   0 }, {   0,   0 }, {  61,4206 }, {   0,   0 },
+ {  63,4231 }, {   0,   0 }, {  65,4231 }, {  66,4231 }, {  67,4231 },
+ {  68,4231 }, {  69,4231 }, {  70,4231 }, {  71,4231 }, {  72,4231 },
+ {  73,4231 }, {  74,4231 }, {  75,4231 }, {  76,4231 }, {  77,4231 },
+ {  78,4231 }, {  79,4231 }, {  80,4231 }, {  81,4231 }, {  82,4231 },
+ {  83,4231 }, {  84,4231 }, {  85,4231 }, {  86,4231 }, {  87,4231 },
+ {  88,4231 }, {  89,4231 }, {  90,4231 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,4231 }, {   0,   0 }, {  97,4231 },
+ {  98,4231 }, {  99,4231 }, { 100,4231 }, { 101,4231 }, { 102,4231 },
+ { 103,4231 }, { 104,4231 }, { 105,4231 }, { 106,4231 }, { 107,4231 },
+
+ { 108,4231 }, { 109,4231 }, { 110,4231 }, { 111,4231 }, { 112,4231 },
+ { 113,4231 }, { 114,4231 }, { 115,4231 }, { 116,4231 }, { 117,4231 },
+ { 118,4231 }, { 119,4231 }, { 120,4231 }, { 121,4231 }, { 122,4231 },
+ {   0,   0 }, { 124,4206 }, { 125,4206 }, { 126,4206 }, { 127,4231 },
+ { 128,4231 }, { 129,4231 }, { 130,4231 }, { 131,4231 }, { 132,4231 },
+ { 133,4231 }, { 134,4231 }, { 135,4231 }, { 136,4231 }, { 137,4231 },
+ { 138,4231 }, { 139,4231 }, { 140,4231 }, { 141,4231 }, { 142,4231 },
+ { 143,4231 }, { 144,4231 }, { 145,4231 }, { 146,4231 }, { 147,4231 },
+ { 148,4231 }, { 149,4231 }, { 150,4231 }, { 151,4231 }, { 152,4231 },
+ { 153,4231 }, { 154,4231 }, { 155,4231 }, { 156,4231 }, { 157,4231 },
+
+ { 158,4231 }, { 159,4231 }, { 160,4231 }, { 161,4231 }, { 162,4231 },
+ { 163,4231 }, { 164,4231 }, { 165,4231 }, { 166,4231 }, { 167,4231 },
+ { 168,4231 }, { 169,4231 }, { 170,4231 }, { 171,4231 }, { 172,4231 },
+ { 173,4231 }, { 174,4231 }, { 175,4231 }, { 176,4231 }, { 177,4231 },
+ { 178,4231 }, { 179,4231 }, { 180,4231 }, { 181,4231 }, { 182,4231 },
+ { 183,4231 }, { 184,4231 }, { 185,4231 }, { 186,4231 }, { 187,4231 },
+ { 188,4231 }, { 189,4231 }, { 190,4231 }, { 191,4231 }, { 192,4231 },
+ { 193,4231 }, { 194,4231 }, { 195,4231 }, { 196,4231 }, { 197,4231 },
+ { 198,4231 }, { 199,4231 }, { 200,4231 }, { 201,4231 }, { 202,4231 },
+ { 203,4231 }, { 204,4231 }, { 205,4231 }, { 206,4231 }, { 207,4231 },
+
+ { 208,4231 }, { 209,4231 }, { 210,4231 }, { 211,4231 }, { 212,4231 },
+ { 213,4231 }, { 214,4231 }, { 215,4231 }, { 216,4231 }, { 217,4231 },
+ { 218,4231 }, { 219,4231 }, { 220,4231 }, { 221,4231 }, { 222,4231 },
+ { 223,4231 }, { 224,4231 }, { 225,4231 }, { 226,4231 }, { 227,4231 },
+ { 228,4231 }, { 229,4231 }, { 230,4231 }, { 231,4231 }, { 232,4231 },
+ { 233,4231 }, { 234,4231 }, { 235,4231 }, { 236,4231 }, { 237,4231 },
+ { 238,4231 }, { 239,4231 }, { 240,4231 }, { 241,4231 }, { 242,4231 },
+ { 243,4231 }, { 244,4231 }, { 245,4231 }, { 246,4231 }, { 247,4231 },
+ { 248,4231 }, { 249,4231 }, { 250,4231 }, { 251,4231 }, { 252,4231 },
+ { 253,4231 }, { 254,4231 }, { 255,4231 }, { 256,4231 }, {   0,  51 },
+
+ {   0,17153 }, {   1,4265 }, {   2,4265 }, {   3,4265 }, {   4,4265 },
+ {   5,4265 }, {   6,4265 }, {   7,4265 }, {   8,4265 }, {   9,4265 },
+ {  10,4265 }, {  11,4265 }, {  12,4265 }, {  13,4265 }, {  14,4265 },
+ {  15,4265 }, {  16,4265 }, {  17,4265 }, {  18,4265 }, {  19,4265 },
+ {  20,4265 }, {  21,4265 }, {  22,4265 }, {  23,4265 }, {  24,4265 },
+ {  25,4265 }, {  26,4265 }, {  27,4265 }, {  28,4265 }, {  29,4265 },
+ {  30,4265 }, {  31,4265 }, {  32,4265 }, {  33,4265 }, {  34,4233 },
+ {  35,4265 }, {  36,4265 }, {  37,4265 }, {  38,4265 }, {  39,4265 },
+ {  40,4265 }, {  41,4265 }, {  42,4265 }, {  43,4265 }, {  44,4265 },
+ {  45,4265 }, {  46,4265 }, {  47,4265 }, {  48,4265 }, {  49,4265 },
+
+ {  50,4265 }, {  51,4265 }, {  52,4265 }, {  53,4265 }, {  54,4265 },
+ {  55,4265 }, {  56,4265 }, {  57,4265 }, {  58,4265 }, {  59,4265 },
+ {  60,4265 }, {  61,4265 }, {  62,4265 }, {  63,4265 }, {  64,4265 },
+ {  65,4265 }, {  66,4265 }, {  67,4265 }, {  68,4265 }, {  69,4265 },
+ {  70,4265 }, {  71,4265 }, {  72,4265 }, {  73,4265 }, {  74,4265 },
+ {  75,4265 }, {  76,4265 }, {  77,4265 }, {  78,4265 }, {  79,4265 },
+ {  80,4265 }, {  81,4265 }, {  82,4265 }, {  83,4265 }, {  84,4265 },
+ {  85,4265 }, {  86,4265 }, {  87,4265 }, {  88,4265 }, {  89,4265 },
+ {  90,4265 }, {  91,4265 }, {  92,4523 }, {  93,4265 }, {  94,4265 },
+ {  95,4265 }, {  96,4265 }, {  97,4265 }, {  98,4265 }, {  99,4265 },
+
+ { 100,4265 }, { 101,4265 }, { 102,4265 }, { 103,4265 }, { 104,4265 },
+ { 105,4265 }, { 106,4265 }, { 107,4265 }, { 108,4265 }, { 109,4265 },
+ { 110,4265 }, { 111,4265 }, { 112,4265 }, { 113,4265 }, { 114,4265 },
+ { 115,4265 }, { 116,4265 }, { 117,4265 }, { 118,4265 }, { 119,4265 },
+ { 120,4265 }, { 121,4265 }, { 122,4265 }, { 123,4265 }, { 124,4265 },
+ { 125,4265 }, { 126,4265 }, { 127,4265 }, { 128,4265 }, { 129,4265 },
+ { 130,4265 }, { 131,4265 }, { 132,4265 }, { 133,4265 }, { 134,4265 },
+ { 135,4265 }, { 136,4265 }, { 137,4265 }, { 138,4265 }, { 139,4265 },
+ { 140,4265 }, { 141,4265 }, { 142,4265 }, { 143,4265 }, { 144,4265 },
+ { 145,4265 }, { 146,4265 }, { 147,4265 }, { 148,4265 }, { 149,4265 },
+
+ { 150,4265 }, { 151,4265 }, { 152,4265 }, { 153,4265 }, { 154,4265 },
+ { 155,4265 }, { 156,4265 }, { 157,4265 }, { 158,4265 }, { 159,4265 },
+ { 160,4265 }, { 161,4265 }, { 162,4265 }, { 163,4265 }, { 164,4265 },
+ { 165,4265 }, { 166,4265 }, { 167,4265 }, { 168,4265 }, { 169,4265 },
+ { 170,4265 }, { 171,4265 }, { 172,4265 }, { 173,4265 }, { 174,4265 },
+ { 175,4265 }, { 176,4265 }, { 177,4265 }, { 178,4265 }, { 179,4265 },
+ { 180,4265 }, { 181,4265 }, { 182,4265 }, { 183,4265 }, { 184,4265 },
+ { 185,4265 }, { 186,4265 }, { 187,4265 }, { 188,4265 }, { 189,4265 },
+ { 190,4265 }, { 191,4265 }, { 192,4265 }, { 193,4265 }, { 194,4265 },
+ { 195,4265 }, { 196,4265 }, { 197,4265 }, { 198,4265 }, { 199,4265 },
+
+ { 200,4265 }, { 201,4265 }, { 202,4265 }, { 203,4265 }, { 204,4265 },
+ { 205,4265 }, { 206,4265 }, { 207,4265 }, { 208,4265 }, { 209,4265 },
+ { 210,4265 }, { 211,4265 }, { 212,4265 }, { 213,4265 }, { 214,4265 },
+ { 215,4265 }, { 216,4265 }, { 217,4265 }, { 218,4265 }, { 219,4265 },
+ { 220,4265 }, { 221,4265 }, { 222,4265 }, { 223,4265 }, { 224,4265 },
+ { 225,4265 }, { 226,4265 }, { 227,4265 }, { 228,4265 }, { 229,4265 },
+ { 230,4265 }, { 231,4265 }, { 232,4265 }, { 233,4265 }, { 234,4265 },
+ { 235,4265 }, { 236,4265 }, { 237,4265 }, { 238,4265 }, { 239,4265 },
+ { 240,4265 }, { 241,4265 }, { 242,4265 }, { 243,4265 }, { 244,4265 },
+ { 245,4265 }, { 246,4265 }, { 247,4265 }, { 248,4265 }, { 249,4265 },
+
+ { 250,4265 }, { 251,4265 }, { 252,4265 }, { 253,4265 }, { 254,4265 },
+ { 255,4265 }, { 256,4265 }, {   0,  51 }, {   0,16895 }, {   1,4523 },
+ {   2,4523 }, {   3,4523 }, {   4,4523 }, {   5,4523 }, {   6,4523 },
+ {   7,4523 }, {   8,4523 }, {   9,4523 }, {  10,4523 }, {  11,4523 },
+ {  12,4523 }, {  13,4523 }, {  14,4523 }, {  15,4523 }, {  16,4523 },
+ {  17,4523 }, {  18,4523 }, {  19,4523 }, {  20,4523 }, {  21,4523 },
+ {  22,4523 }, {  23,4523 }, {  24,4523 }, {  25,4523 }, {  26,4523 },
+ {  27,4523 }, {  28,4523 }, {  29,4523 }, {  30,4523 }, {  31,4523 },
+ {  32,4523 }, {  33,4523 }, {  34,4523 }, {  35,4523 }, {  36,4523 },
+ {  37,4523 }, {  38,4523 }, {  39,3977 }, {  40,4523 }, {  41,4523 },
+
+ {  42,4523 }, {  43,4523 }, {  44,4523 }, {  45,4523 }, {  46,4523 },
+ {  47,4523 }, {  48,4523 }, {  49,4523 }, {  50,4523 }, {  51,4523 },
+ {  52,4523 }, {  53,4523 }, {  54,4523 }, {  55,4523 }, {  56,4523 },
+ {  57,4523 }, {  58,4523 }, {  59,4523 }, {  60,4523 }, {  61,4523 },
+ {  62,4523 }, {  63,4523 }, {  64,4523 }, {  65,4523 }, {  66,4523 },
+ {  67,4523 }, {  68,4523 }, {  69,4523 }, {  70,4523 }, {  71,4523 },
+ {  72,4523 }, {  73,4523 }, {  74,4523 }, {  75,4523 }, {  76,4523 },
+ {  77,4523 }, {  78,4523 }, {  79,4523 }, {  80,4523 }, {  81,4523 },
+ {  82,4523 }, {  83,4523 }, {  84,4523 }, {  85,4523 }, {  86,4523 },
+ {  87,4523 }, {  88,4523 }, {  89,4523 }, {  90,4523 }, {  91,4523 },
+
+ {  92,4781 }, {  93,4523 }, {  94,4523 }, {  95,4523 }, {  96,4523 },
+ {  97,4523 }, {  98,4523 }, {  99,4523 }, { 100,4523 }, { 101,4523 },
+ { 102,4523 }, { 103,4523 }, { 104,4523 }, { 105,4523 }, { 106,4523 },
+ { 107,4523 }, { 108,4523 }, { 109,4523 }, { 110,4523 }, { 111,4523 },
+ { 112,4523 }, { 113,4523 }, { 114,4523 }, { 115,4523 }, { 116,4523 },
+ { 117,4523 }, { 118,4523 }, { 119,4523 }, { 120,4523 }, { 121,4523 },
+ { 122,4523 }, { 123,4523 }, { 124,4523 }, { 125,4523 }, { 126,4523 },
+ { 127,4523 }, { 128,4523 }, { 129,4523 }, { 130,4523 }, { 131,4523 },
+ { 132,4523 }, { 133,4523 }, { 134,4523 }, { 135,4523 }, { 136,4523 },
+ { 137,4523 }, { 138,4523 }, { 139,4523 }, { 140,4523 }, { 141,4523 },
+
+ { 142,4523 }, { 143,4523 }, { 144,4523 }, { 145,4523 }, { 146,4523 },
+ { 147,4523 }, { 148,4523 }, { 149,4523 }, { 150,4523 }, { 151,4523 },
+ { 152,4523 }, { 153,4523 }, { 154,4523 }, { 155,4523 }, { 156,4523 },
+ { 157,4523 }, { 158,4523 }, { 159,4523 }, { 160,4523 }, { 161,4523 },
+ { 162,4523 }, { 163,4523 }, { 164,4523 }, { 165,4523 }, { 166,4523 },
+ { 167,4523 }, { 168,4523 }, { 169,4523 }, { 170,4523 }, { 171,4523 },
+ { 172,4523 }, { 173,4523 }, { 174,4523 }, { 175,4523 }, { 176,4523 },
+ { 177,4523 }, { 178,4523 }, { 179,4523 }, { 180,4523 }, { 181,4523 },
+ { 182,4523 }, { 183,4523 }, { 184,4523 }, { 185,4523 }, { 186,4523 },
+ { 187,4523 }, { 188,4523 }, { 189,4523 }, { 190,4523 }, { 191,4523 },
+
+ { 192,4523 }, { 193,4523 }, { 194,4523 }, { 195,4523 }, { 196,4523 },
+ { 197,4523 }, { 198,4523 }, { 199,4523 }, { 200,4523 }, { 201,4523 },
+ { 202,4523 }, { 203,4523 }, { 204,4523 }, { 205,4523 }, { 206,4523 },
+ { 207,4523 }, { 208,4523 }, { 209,4523 }, { 210,4523 }, { 211,4523 },
+ { 212,4523 }, { 213,4523 }, { 214,4523 }, { 215,4523 }, { 216,4523 },
+ { 217,4523 }, { 218,4523 }, { 219,4523 }, { 220,4523 }, { 221,4523 },
+ { 222,4523 }, { 223,4523 }, { 224,4523 }, { 225,4523 }, { 226,4523 },
+ { 227,4523 }, { 228,4523 }, { 229,4523 }, { 230,4523 }, { 231,4523 },
+ { 232,4523 }, { 233,4523 }, { 234,4523 }, { 235,4523 }, { 236,4523 },
+ { 237,4523 }, { 238,4523 }, { 239,4523 }, { 240,4523 }, { 241,4523 },
+
+ { 242,4523 }, { 243,4523 }, { 244,4523 }, { 245,4523 }, { 246,4523 },
+ { 247,4523 }, { 248,4523 }, { 249,4523 }, { 250,4523 }, { 251,4523 },
+ { 252,4523 }, { 253,4523 }, { 254,4523 }, { 255,4523 }, { 256,4523 },
+ {   0,  51 }, {   0,16637 }, {   1,3457 }, {   2,3457 }, {   3,3457 },
+ {   4,3457 }, {   5,3457 }, {   6,3457 }, {   7,3457 }, {   8,3457 },
+ {   9,3432 }, {  10,3432 }, {  11,3457 }, {  12,3457 }, {  13,3432 },
+ {  14,3457 }, {  15,3457 }, {  16,3457 }, {  17,3457 }, {  18,3457 },
+ {  19,3457 }, {  20,3457 }, {  21,3457 }, {  22,3457 }, {  23,3457 },
+ {  24,3457 }, {  25,3457 }, {  26,3457 }, {  27,3457 }, {  28,3457 },
+ {  29,3457 }, {  30,3457 }, {  31,3457 }, {  32,3432 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {  36,3457 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,3432 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,3457 }, {  46,3432 }, {  47,3432 }, {  48,4781 },
+ {  49,4781 }, {  50,4781 }, {  51,4781 }, {  52,4781 }, {  53,4781 },
+ {  54,4781 }, {  55,4781 }, {  56,4781 }, {  57,4781 }, {  58,3457 },
+ {   0,   0 }, {   0,   0 }, {  61,3432 }, {   0,   0 }, {  63,3457 },
+ {   0,   0 }, {  65,3457 }, {  66,3457 }, {  67,3457 }, {  68,3457 },
+ {  69,3457 }, {  70,3457 }, {  71,3457 }, {  72,3457 }, {  73,3457 },
+ {  74,3457 }, {  75,3457 }, {  76,3457 }, {  77,3457 }, {  78,3457 },
+ {  79,3457 }, {  80,3457 }, {  81,3457 }, {  82,3457 }, {  83,3457 },
+
+ {  84,3457 }, {  85,3457 }, {  86,3457 }, {  87,3457 }, {  88,3457 },
+ {  89,3457 }, {  90,3457 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,3457 }, {   0,   0 }, {  97,3457 }, {  98,3457 },
+ {  99,3457 }, { 100,3457 }, { 101,3457 }, { 102,3457 }, { 103,3457 },
+ { 104,3457 }, { 105,3457 }, { 106,3457 }, { 107,3457 }, { 108,3457 },
+ { 109,3457 }, { 110,3457 }, { 111,3457 }, { 112,3457 }, { 113,3457 },
+ { 114,3457 }, { 115,3457 }, { 116,3457 }, { 117,3457 }, { 118,3457 },
+ { 119,3457 }, { 120,3457 }, { 121,3457 }, { 122,3457 }, {   0,   0 },
+ { 124,3432 }, { 125,3432 }, { 126,3432 }, { 127,3457 }, { 128,3457 },
+ { 129,3457 }, { 130,3457 }, { 131,3457 }, { 132,3457 }, { 133,3457 },
+
+ { 134,3457 }, { 135,3457 }, { 136,3457 }, { 137,3457 }, { 138,3457 },
+ { 139,3457 }, { 140,3457 }, { 141,3457 }, { 142,3457 }, { 143,3457 },
+ { 144,3457 }, { 145,3457 }, { 146,3457 }, { 147,3457 }, { 148,3457 },
+ { 149,3457 }, { 150,3457 }, { 151,3457 }, { 152,3457 }, { 153,3457 },
+ { 154,3457 }, { 155,3457 }, { 156,3457 }, { 157,3457 }, { 158,3457 },
+ { 159,3457 }, { 160,3457 }, { 161,3457 }, { 162,3457 }, { 163,3457 },
+ { 164,3457 }, { 165,3457 }, { 166,3457 }, { 167,3457 }, { 168,3457 },
+ { 169,3457 }, { 170,3457 }, { 171,3457 }, { 172,3457 }, { 173,3457 },
+ { 174,3457 }, { 175,3457 }, { 176,3457 }, { 177,3457 }, { 178,3457 },
+ { 179,3457 }, { 180,3457 }, { 181,3457 }, { 182,3457 }, { 183,3457 },
+
+ { 184,3457 }, { 185,3457 }, { 186,3457 }, { 187,3457 }, { 188,3457 },
+ { 189,3457 }, { 190,3457 }, { 191,3457 }, { 192,3457 }, { 193,3457 },
+ { 194,3457 }, { 195,3457 }, { 196,3457 }, { 197,3457 }, { 198,3457 },
+ { 199,3457 }, { 200,3457 }, { 201,3457 }, { 202,3457 }, { 203,3457 },
+ { 204,3457 }, { 205,3457 }, { 206,3457 }, { 207,3457 }, { 208,3457 },
+ { 209,3457 }, { 210,3457 }, { 211,3457 }, { 212,3457 }, { 213,3457 },
+ { 214,3457 }, { 215,3457 }, { 216,3457 }, { 217,3457 }, { 218,3457 },
+ { 219,3457 }, { 220,3457 }, { 221,3457 }, { 222,3457 }, { 223,3457 },
+ { 224,3457 }, { 225,3457 }, { 226,3457 }, { 227,3457 }, { 228,3457 },
+ { 229,3457 }, { 230,3457 }, { 231,3457 }, { 232,3457 }, { 233,3457 },
+
+ { 234,3457 }, { 235,3457 }, { 236,3457 }, { 237,3457 }, { 238,3457 },
+ { 239,3457 }, { 240,3457 }, { 241,3457 }, { 242,3457 }, { 243,3457 },
+ { 244,3457 }, { 245,3457 }, { 246,3457 }, { 247,3457 }, { 248,3457 },
+ { 249,3457 }, { 250,3457 }, { 251,3457 }, { 252,3457 }, { 253,3457 },
+ { 254,3457 }, { 255,3457 }, { 256,3457 }, {   0,  35 }, {   0,16379 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,3463 }, {  10,3463 },
+ {   0,   0 }, {   0,   0 }, {  13,3463 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,  51 }, {   0,16361 }, {   0,  43 }, {   0,16359 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  32,3463 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,3463 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  46,3465 }, {  47,3463 }, {   0,  51 }, {   0,16330 }, {   0,  51 },
+ {   0,16328 }, {   0,   7 }, {   0,16326 }, {   0,  14 }, {   0,16324 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  61,3463 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  51 }, {   0,16297 }, {   1,3117 }, {   2,3117 }, {   3,3117 },
+ {   4,3117 }, {   5,3117 }, {   6,3117 }, {   7,3117 }, {   8,3117 },
+ {   9,3387 }, {  10,3387 }, {  11,3117 }, {  12,3117 }, {  13,3387 },
+ {  14,3117 }, {  15,3117 }, {  16,3117 }, {  17,3117 }, {  18,3117 },
+ {  19,3117 }, {  20,3117 }, {  21,3117 }, {  22,3117 }, {  23,3117 },
+ {  24,3117 }, {  25,3117 }, {  26,3117 }, {  27,3117 }, {  28,3117 },
+ {  29,3117 }, {  30,3117 }, {  31,3117 }, {  32,3387 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,3117 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,3387 }, { 124,3463 }, { 125,3463 },
+
+ { 126,3463 }, {  45,3117 }, {  46,4699 }, {  47,3092 }, {  48,4441 },
+ {  49,4441 }, {  50,4441 }, {  51,4441 }, {  52,4441 }, {  53,4441 },
+ {  54,4441 }, {  55,4441 }, {  56,4441 }, {  57,4441 }, {  58,3117 },
+ { 123,6628 }, {   0,   0 }, {  61,3092 }, {   0,   0 }, {  63,3117 },
+ {   0,   0 }, {  65,3117 }, {  66,3117 }, {  67,3117 }, {  68,3117 },
+ {  69,3117 }, {  70,3117 }, {  71,3117 }, {  72,3117 }, {  73,3117 },
+ {  74,3117 }, {  75,3117 }, {  76,3117 }, {  77,3117 }, {  78,3117 },
+ {  79,3117 }, {  80,3117 }, {  81,3117 }, {  82,3117 }, {  83,3117 },
+ {  84,3117 }, {  85,3117 }, {  86,3117 }, {  87,3117 }, {  88,3117 },
+ {  89,3117 }, {  90,3117 }, {   0,   0 }, { 125,6599 }, { 126,6601 },
+
+ { 125,6601 }, {  95,3117 }, {   0,   0 }, {  97,3117 }, {  98,3117 },
+ {  99,3117 }, { 100,3117 }, { 101,3117 }, { 102,3117 }, { 103,3117 },
+ { 104,3117 }, { 105,3117 }, { 106,3117 }, { 107,3117 }, { 108,3117 },
+ { 109,3117 }, { 110,3117 }, { 111,3117 }, { 112,3117 }, { 113,3117 },
+ { 114,3117 }, { 115,3117 }, { 116,3117 }, { 117,3117 }, { 118,3117 },
+ { 119,3117 }, { 120,3117 }, { 121,3117 }, { 122,3117 }, {   0,   0 },
+ { 124,3092 }, { 125,3387 }, { 126,3387 }, { 127,3117 }, { 128,3117 },
+ { 129,3117 }, { 130,3117 }, { 131,3117 }, { 132,3117 }, { 133,3117 },
+ { 134,3117 }, { 135,3117 }, { 136,3117 }, { 137,3117 }, { 138,3117 },
+ { 139,3117 }, { 140,3117 }, { 141,3117 }, { 142,3117 }, { 143,3117 },
+
+ { 144,3117 }, { 145,3117 }, { 146,3117 }, { 147,3117 }, { 148,3117 },
+ { 149,3117 }, { 150,3117 }, { 151,3117 }, { 152,3117 }, { 153,3117 },
+ { 154,3117 }, { 155,3117 }, { 156,3117 }, { 157,3117 }, { 158,3117 },
+ { 159,3117 }, { 160,3117 }, { 161,3117 }, { 162,3117 }, { 163,3117 },
+ { 164,3117 }, { 165,3117 }, { 166,3117 }, { 167,3117 }, { 168,3117 },
+ { 169,3117 }, { 170,3117 }, { 171,3117 }, { 172,3117 }, { 173,3117 },
+ { 174,3117 }, { 175,3117 }, { 176,3117 }, { 177,3117 }, { 178,3117 },
+ { 179,3117 }, { 180,3117 }, { 181,3117 }, { 182,3117 }, { 183,3117 },
+ { 184,3117 }, { 185,3117 }, { 186,3117 }, { 187,3117 }, { 188,3117 },
+ { 189,3117 }, { 190,3117 }, { 191,3117 }, { 192,3117 }, { 193,3117 },
+
+ { 194,3117 }, { 195,3117 }, { 196,3117 }, { 197,3117 }, { 198,3117 },
+ { 199,3117 }, { 200,3117 }, { 201,3117 }, { 202,3117 }, { 203,3117 },
+ { 204,3117 }, { 205,3117 }, { 206,3117 }, { 207,3117 }, { 208,3117 },
+ { 209,3117 }, { 210,3117 }, { 211,3117 }, { 212,3117 }, { 213,3117 },
+ { 214,3117 }, { 215,3117 }, { 216,3117 }, { 217,3117 }, { 218,3117 },
+ { 219,3117 }, { 220,3117 }, { 221,3117 }, { 222,3117 }, { 223,3117 },
+ { 224,3117 }, { 225,3117 }, { 226,3117 }, { 227,3117 }, { 228,3117 },
+ { 229,3117 }, { 230,3117 }, { 231,3117 }, { 232,3117 }, { 233,3117 },
+ { 234,3117 }, { 235,3117 }, { 236,3117 }, { 237,3117 }, { 238,3117 },
+ { 239,3117 }, { 240,3117 }, { 241,3117 }, { 242,3117 }, { 243,3117 },
+
+ { 244,3117 }, { 245,3117 }, { 246,3117 }, { 247,3117 }, { 248,3117 },
+ { 249,3117 }, { 250,3117 }, { 251,3117 }, { 252,3117 }, { 253,3117 },
+ { 254,3117 }, { 255,3117 }, { 256,3117 }, {   0,  51 }, {   0,16039 },
+ {   1,4500 }, {   2,4500 }, {   3,4500 }, {   4,4500 }, {   5,4500 },
+ {   6,4500 }, {   7,4500 }, {   8,4500 }, {   9,4500 }, {  10,4500 },
+ {  11,4500 }, {  12,4500 }, {  13,4500 }, {  14,4500 }, {  15,4500 },
+ {  16,4500 }, {  17,4500 }, {  18,4500 }, {  19,4500 }, {  20,4500 },
+ {  21,4500 }, {  22,4500 }, {  23,4500 }, {  24,4500 }, {  25,4500 },
+ {  26,4500 }, {  27,4500 }, {  28,4500 }, {  29,4500 }, {  30,4500 },
+ {  31,4500 }, {  32,4500 }, {  33,4500 }, {  34,4500 }, {  35,4500 },
+
+ {  36,4500 }, {  37,4500 }, {  38,4500 }, {  39,4500 }, {  40,4500 },
+ {  41,4500 }, {  42,4500 }, {  43,4500 }, {  44,4500 }, {  45,4500 },
+ {  46,4500 }, {  47,4500 }, {  48,4500 }, {  49,4500 }, {  50,4500 },
+ {  51,4500 }, {  52,4500 }, {  53,4500 }, {  54,4500 }, {  55,4500 },
+ {  56,4500 }, {  57,4500 }, {  58,4500 }, {  59,4500 }, {  60,4500 },
+ {  61,4500 }, {  62,4500 }, {  63,4500 }, {  64,4500 }, {  65,4500 },
+ {  66,4500 }, {  67,4500 }, {  68,4500 }, {  69,4500 }, {  70,4500 },
+ {  71,4500 }, {  72,4500 }, {  73,4500 }, {  74,4500 }, {  75,4500 },
+ {  76,4500 }, {  77,4500 }, {  78,4500 }, {  79,4500 }, {  80,4500 },
+ {  81,4500 }, {  82,4500 }, {  83,4500 }, {  84,4500 }, {  85,4500 },
+
+ {  86,4500 }, {  87,4500 }, {  88,4500 }, {  89,4500 }, {  90,4500 },
+ {  91,4500 }, {  92,4758 }, {  93,3132 }, {  94,4500 }, {  95,4500 },
+ {  96,4500 }, {  97,4500 }, {  98,4500 }, {  99,4500 }, { 100,4500 },
+ { 101,4500 }, { 102,4500 }, { 103,4500 }, { 104,4500 }, { 105,4500 },
+ { 106,4500 }, { 107,4500 }, { 108,4500 }, { 109,4500 }, { 110,4500 },
+ { 111,4500 }, { 112,4500 }, { 113,4500 }, { 114,4500 }, { 115,4500 },
+ { 116,4500 }, { 117,4500 }, { 118,4500 }, { 119,4500 }, { 120,4500 },
+ { 121,4500 }, { 122,4500 }, { 123,4500 }, { 124,4500 }, { 125,4500 },
+ { 126,4500 }, { 127,4500 }, { 128,4500 }, { 129,4500 }, { 130,4500 },
+ { 131,4500 }, { 132,4500 }, { 133,4500 }, { 134,4500 }, { 135,4500 },
+
+ { 136,4500 }, { 137,4500 }, { 138,4500 }, { 139,4500 }, { 140,4500 },
+ { 141,4500 }, { 142,4500 }, { 143,4500 }, { 144,4500 }, { 145,4500 },
+ { 146,4500 }, { 147,4500 }, { 148,4500 }, { 149,4500 }, { 150,4500 },
+ { 151,4500 }, { 152,4500 }, { 153,4500 }, { 154,4500 }, { 155,4500 },
+ { 156,4500 }, { 157,4500 }, { 158,4500 }, { 159,4500 }, { 160,4500 },
+ { 161,4500 }, { 162,4500 }, { 163,4500 }, { 164,4500 }, { 165,4500 },
+ { 166,4500 }, { 167,4500 }, { 168,4500 }, { 169,4500 }, { 170,4500 },
+ { 171,4500 }, { 172,4500 }, { 173,4500 }, { 174,4500 }, { 175,4500 },
+ { 176,4500 }, { 177,4500 }, { 178,4500 }, { 179,4500 }, { 180,4500 },
+ { 181,4500 }, { 182,4500 }, { 183,4500 }, { 184,4500 }, { 185,4500 },
+
+ { 186,4500 }, { 187,4500 }, { 188,4500 }, { 189,4500 }, { 190,4500 },
+ { 191,4500 }, { 192,4500 }, { 193,4500 }, { 194,4500 }, { 195,4500 },
+ { 196,4500 }, { 197,4500 }, { 198,4500 }, { 199,4500 }, { 200,4500 },
+ { 201,4500 }, { 202,4500 }, { 203,4500 }, { 204,4500 }, { 205,4500 },
+ { 206,4500 }, { 207,4500 }, { 208,4500 }, { 209,4500 }, { 210,4500 },
+ { 211,4500 }, { 212,4500 }, { 213,4500 }, { 214,4500 }, { 215,4500 },
+ { 216,4500 }, { 217,4500 }, { 218,4500 }, { 219,4500 }, { 220,4500 },
+ { 221,4500 }, { 222,4500 }, { 223,4500 }, { 224,4500 }, { 225,4500 },
+ { 226,4500 }, { 227,4500 }, { 228,4500 }, { 229,4500 }, { 230,4500 },
+ { 231,4500 }, { 232,4500 }, { 233,4500 }, { 234,4500 }, { 235,4500 },
+
+ { 236,4500 }, { 237,4500 }, { 238,4500 }, { 239,4500 }, { 240,4500 },
+ { 241,4500 }, { 242,4500 }, { 243,4500 }, { 244,4500 }, { 245,4500 },
+ { 246,4500 }, { 247,4500 }, { 248,4500 }, { 249,4500 }, { 250,4500 },
+ { 251,4500 }, { 252,4500 }, { 253,4500 }, { 254,4500 }, { 255,4500 },
+ { 256,4500 }, {   0,  51 }, {   0,15781 }, {   1,2601 }, {   2,2601 },
+ {   3,2601 }, {   4,2601 }, {   5,2601 }, {   6,2601 }, {   7,2601 },
+ {   8,2601 }, {   9,2576 }, {  10,2576 }, {  11,2601 }, {  12,2601 },
+ {  13,2576 }, {  14,2601 }, {  15,2601 }, {  16,2601 }, {  17,2601 },
+ {  18,2601 }, {  19,2601 }, {  20,2601 }, {  21,2601 }, {  22,2601 },
+ {  23,2601 }, {  24,2601 }, {  25,2601 }, {  26,2601 }, {  27,2601 },
+
+ {  28,2601 }, {  29,2601 }, {  30,2601 }, {  31,2601 }, {  32,2576 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,2601 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,2576 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,2601 }, {  46,2576 }, {  47,2576 },
+ {  48,2601 }, {  49,2601 }, {  50,2601 }, {  51,2601 }, {  52,2601 },
+ {  53,2601 }, {  54,2601 }, {  55,2601 }, {  56,2601 }, {  57,2601 },
+ {  58,2601 }, {   0,   0 }, {   0,   0 }, {  61,2576 }, {   0,   0 },
+ {  63,2601 }, {   0,   0 }, {  65,2601 }, {  66,2601 }, {  67,2601 },
+ {  68,2601 }, {  69,2601 }, {  70,2601 }, {  71,2601 }, {  72,2601 },
+ {  73,2601 }, {  74,2601 }, {  75,2601 }, {  76,2601 }, {  77,2601 },
+
+ {  78,2601 }, {  79,2601 }, {  80,2601 }, {  81,2601 }, {  82,2601 },
+ {  83,2601 }, {  84,2601 }, {  85,2601 }, {  86,2601 }, {  87,2601 },
+ {  88,2601 }, {  89,2601 }, {  90,2601 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,2601 }, {   0,   0 }, {  97,2601 },
+ {  98,2601 }, {  99,2601 }, { 100,2601 }, { 101,2601 }, { 102,2601 },
+ { 103,2601 }, { 104,2601 }, { 105,2601 }, { 106,2601 }, { 107,2601 },
+ { 108,2601 }, { 109,2601 }, { 110,2601 }, { 111,2601 }, { 112,2601 },
+ { 113,2601 }, { 114,2601 }, { 115,4758 }, { 116,2601 }, { 117,2601 },
+ { 118,2601 }, { 119,2601 }, { 120,2601 }, { 121,2601 }, { 122,2601 },
+ {   0,   0 }, { 124,2576 }, { 125,2576 }, { 126,2576 }, { 127,2601 },
+
+ { 128,2601 }, { 129,2601 }, { 130,2601 }, { 131,2601 }, { 132,2601 },
+ { 133,2601 }, { 134,2601 }, { 135,2601 }, { 136,2601 }, { 137,2601 },
+ { 138,2601 }, { 139,2601 }, { 140,2601 }, { 141,2601 }, { 142,2601 },
+ { 143,2601 }, { 144,2601 }, { 145,2601 }, { 146,2601 }, { 147,2601 },
+ { 148,2601 }, { 149,2601 }, { 150,2601 }, { 151,2601 }, { 152,2601 },
+ { 153,2601 }, { 154,2601 }, { 155,2601 }, { 156,2601 }, { 157,2601 },
+ { 158,2601 }, { 159,2601 }, { 160,2601 }, { 161,2601 }, { 162,2601 },
+ { 163,2601 }, { 164,2601 }, { 165,2601 }, { 166,2601 }, { 167,2601 },
+ { 168,2601 }, { 169,2601 }, { 170,2601 }, { 171,2601 }, { 172,2601 },
+ { 173,2601 }, { 174,2601 }, { 175,2601 }, { 176,2601 }, { 177,2601 },
+
+ { 178,2601 }, { 179,2601 }, { 180,2601 }, { 181,2601 }, { 182,2601 },
+ { 183,2601 }, { 184,2601 }, { 185,2601 }, { 186,2601 }, { 187,2601 },
+ { 188,2601 }, { 189,2601 }, { 190,2601 }, { 191,2601 }, { 192,2601 },
+ { 193,2601 }, { 194,2601 }, { 195,2601 }, { 196,2601 }, { 197,2601 },
+ { 198,2601 }, { 199,2601 }, { 200,2601 }, { 201,2601 }, { 202,2601 },
+ { 203,2601 }, { 204,2601 }, { 205,2601 }, { 206,2601 }, { 207,2601 },
+ { 208,2601 }, { 209,2601 }, { 210,2601 }, { 211,2601 }, { 212,2601 },
+ { 213,2601 }, { 214,2601 }, { 215,2601 }, { 216,2601 }, { 217,2601 },
+ { 218,2601 }, { 219,2601 }, { 220,2601 }, { 221,2601 }, { 222,2601 },
+ { 223,2601 }, { 224,2601 }, { 225,2601 }, { 226,2601 }, { 227,2601 },
+
+ { 228,2601 }, { 229,2601 }, { 230,2601 }, { 231,2601 }, { 232,2601 },
+ { 233,2601 }, { 234,2601 }, { 235,2601 }, { 236,2601 }, { 237,2601 },
+ { 238,2601 }, { 239,2601 }, { 240,2601 }, { 241,2601 }, { 242,2601 },
+ { 243,2601 }, { 244,2601 }, { 245,2601 }, { 246,2601 }, { 247,2601 },
+ { 248,2601 }, { 249,2601 }, { 250,2601 }, { 251,2601 }, { 252,2601 },
+ { 253,2601 }, { 254,2601 }, { 255,2601 }, { 256,2601 }, {   0,  51 },
+ {   0,15523 }, {   1,2343 }, {   2,2343 }, {   3,2343 }, {   4,2343 },
+ {   5,2343 }, {   6,2343 }, {   7,2343 }, {   8,2343 }, {   9,2318 },
+ {  10,2318 }, {  11,2343 }, {  12,2343 }, {  13,2318 }, {  14,2343 },
+ {  15,2343 }, {  16,2343 }, {  17,2343 }, {  18,2343 }, {  19,2343 },
+
+ {  20,2343 }, {  21,2343 }, {  22,2343 }, {  23,2343 }, {  24,2343 },
+ {  25,2343 }, {  26,2343 }, {  27,2343 }, {  28,2343 }, {  29,2343 },
+ {  30,2343 }, {  31,2343 }, {  32,2318 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,2343 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  41,2318 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,2343 }, {  46,2318 }, {  47,2318 }, {  48,2343 }, {  49,2343 },
+ {  50,2343 }, {  51,2343 }, {  52,2343 }, {  53,2343 }, {  54,2343 },
+ {  55,2343 }, {  56,2343 }, {  57,2343 }, {  58,2343 }, {   0,   0 },
+ {   0,   0 }, {  61,2318 }, {   0,   0 }, {  63,2343 }, {   0,   0 },
+ {  65,2343 }, {  66,2343 }, {  67,2343 }, {  68,2343 }, {  69,2343 },
+
+ {  70,2343 }, {  71,2343 }, {  72,2343 }, {  73,2343 }, {  74,2343 },
+ {  75,2343 }, {  76,2343 }, {  77,2343 }, {  78,2343 }, {  79,2343 },
+ {  80,2343 }, {  81,2343 }, {  82,2343 }, {  83,2343 }, {  84,2343 },
+ {  85,2343 }, {  86,2343 }, {  87,2343 }, {  88,2343 }, {  89,2343 },
+ {  90,2343 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,2343 }, {   0,   0 }, {  97,4758 }, {  98,2343 }, {  99,2343 },
+ { 100,2343 }, { 101,2343 }, { 102,2343 }, { 103,2343 }, { 104,2343 },
+ { 105,2343 }, { 106,2343 }, { 107,2343 }, { 108,2343 }, { 109,2343 },
+ { 110,2343 }, { 111,2343 }, { 112,2343 }, { 113,2343 }, { 114,2343 },
+ { 115,2343 }, { 116,2343 }, { 117,2343 }, { 118,2343 }, { 119,2343 },
+
+ { 120,2343 }, { 121,2343 }, { 122,2343 }, {   0,   0 }, { 124,2318 },
+ { 125,2318 }, { 126,2318 }, { 127,2343 }, { 128,2343 }, { 129,2343 },
+ { 130,2343 }, { 131,2343 }, { 132,2343 }, { 133,2343 }, { 134,2343 },
+ { 135,2343 }, { 136,2343 }, { 137,2343 }, { 138,2343 }, { 139,2343 },
+ { 140,2343 }, { 141,2343 }, { 142,2343 }, { 143,2343 }, { 144,2343 },
+ { 145,2343 }, { 146,2343 }, { 147,2343 }, { 148,2343 }, { 149,2343 },
+ { 150,2343 }, { 151,2343 }, { 152,2343 }, { 153,2343 }, { 154,2343 },
+ { 155,2343 }, { 156,2343 }, { 157,2343 }, { 158,2343 }, { 159,2343 },
+ { 160,2343 }, { 161,2343 }, { 162,2343 }, { 163,2343 }, { 164,2343 },
+ { 165,2343 }, { 166,2343 }, { 167,2343 }, { 168,2343 }, { 169,2343 },
+
+ { 170,2343 }, { 171,2343 }, { 172,2343 }, { 173,2343 }, { 174,2343 },
+ { 175,2343 }, { 176,2343 }, { 177,2343 }, { 178,2343 }, { 179,2343 },
+ { 180,2343 }, { 181,2343 }, { 182,2343 }, { 183,2343 }, { 184,2343 },
+ { 185,2343 }, { 186,2343 }, { 187,2343 }, { 188,2343 }, { 189,2343 },
+ { 190,2343 }, { 191,2343 }, { 192,2343 }, { 193,2343 }, { 194,2343 },
+ { 195,2343 }, { 196,2343 }, { 197,2343 }, { 198,2343 }, { 199,2343 },
+ { 200,2343 }, { 201,2343 }, { 202,2343 }, { 203,2343 }, { 204,2343 },
+ { 205,2343 }, { 206,2343 }, { 207,2343 }, { 208,2343 }, { 209,2343 },
+ { 210,2343 }, { 211,2343 }, { 212,2343 }, { 213,2343 }, { 214,2343 },
+ { 215,2343 }, { 216,2343 }, { 217,2343 }, { 218,2343 }, { 219,2343 },
+
+ { 220,2343 }, { 221,2343 }, { 222,2343 }, { 223,2343 }, { 224,2343 },
+ { 225,2343 }, { 226,2343 }, { 227,2343 }, { 228,2343 }, { 229,2343 },
+ { 230,2343 }, { 231,2343 }, { 232,2343 }, { 233,2343 }, { 234,2343 },
+ { 235,2343 }, { 236,2343 }, { 237,2343 }, { 238,2343 }, { 239,2343 },
+ { 240,2343 }, { 241,2343 }, { 242,2343 }, { 243,2343 }, { 244,2343 },
+ { 245,2343 }, { 246,2343 }, { 247,2343 }, { 248,2343 }, { 249,2343 },
+ { 250,2343 }, { 251,2343 }, { 252,2343 }, { 253,2343 }, { 254,2343 },
+ { 255,2343 }, { 256,2343 }, {   0,  51 }, {   0,15265 }, {   1,2085 },
+ {   2,2085 }, {   3,2085 }, {   4,2085 }, {   5,2085 }, {   6,2085 },
+ {   7,2085 }, {   8,2085 }, {   9,2060 }, {  10,2060 }, {  11,2085 },
+
+ {  12,2085 }, {  13,2060 }, {  14,2085 }, {  15,2085 }, {  16,2085 },
+ {  17,2085 }, {  18,2085 }, {  19,2085 }, {  20,2085 }, {  21,2085 },
+ {  22,2085 }, {  23,2085 }, {  24,2085 }, {  25,2085 }, {  26,2085 },
+ {  27,2085 }, {  28,2085 }, {  29,2085 }, {  30,2085 }, {  31,2085 },
+ {  32,2060 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,2085 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,2060 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,2085 }, {  46,2060 },
+ {  47,2060 }, {  48,2085 }, {  49,2085 }, {  50,2085 }, {  51,2085 },
+ {  52,2085 }, {  53,2085 }, {  54,2085 }, {  55,2085 }, {  56,2085 },
+ {  57,2085 }, {  58,2085 }, {   0,   0 }, {   0,   0 }, {  61,2060 },
+
+ {   0,   0 }, {  63,2085 }, {   0,   0 }, {  65,2085 }, {  66,2085 },
+ {  67,2085 }, {  68,2085 }, {  69,2085 }, {  70,2085 }, {  71,2085 },
+ {  72,2085 }, {  73,2085 }, {  74,2085 }, {  75,2085 }, {  76,2085 },
+ {  77,2085 }, {  78,2085 }, {  79,2085 }, {  80,2085 }, {  81,2085 },
+ {  82,2085 }, {  83,2085 }, {  84,2085 }, {  85,2085 }, {  86,2085 },
+ {  87,2085 }, {  88,2085 }, {  89,2085 }, {  90,2085 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,2085 }, {   0,   0 },
+ {  97,2085 }, {  98,2085 }, {  99,2085 }, { 100,2085 }, { 101,2085 },
+ { 102,2085 }, { 103,2085 }, { 104,2085 }, { 105,2085 }, { 106,2085 },
+ { 107,2085 }, { 108,2085 }, { 109,2085 }, { 110,2085 }, { 111,2085 },
+
+ { 112,2085 }, { 113,2085 }, { 114,2085 }, { 115,2085 }, { 116,2085 },
+ { 117,4758 }, { 118,2085 }, { 119,2085 }, { 120,2085 }, { 121,2085 },
+ { 122,2085 }, {   0,   0 }, { 124,2060 }, { 125,2060 }, { 126,2060 },
+ { 127,2085 }, { 128,2085 }, { 129,2085 }, { 130,2085 }, { 131,2085 },
+ { 132,2085 }, { 133,2085 }, { 134,2085 }, { 135,2085 }, { 136,2085 },
+ { 137,2085 }, { 138,2085 }, { 139,2085 }, { 140,2085 }, { 141,2085 },
+ { 142,2085 }, { 143,2085 }, { 144,2085 }, { 145,2085 }, { 146,2085 },
+ { 147,2085 }, { 148,2085 }, { 149,2085 }, { 150,2085 }, { 151,2085 },
+ { 152,2085 }, { 153,2085 }, { 154,2085 }, { 155,2085 }, { 156,2085 },
+ { 157,2085 }, { 158,2085 }, { 159,2085 }, { 160,2085 }, { 161,2085 },
+
+ { 162,2085 }, { 163,2085 }, { 164,2085 }, { 165,2085 }, { 166,2085 },
+ { 167,2085 }, { 168,2085 }, { 169,2085 }, { 170,2085 }, { 171,2085 },
+ { 172,2085 }, { 173,2085 }, { 174,2085 }, { 175,2085 }, { 176,2085 },
+ { 177,2085 }, { 178,2085 }, { 179,2085 }, { 180,2085 }, { 181,2085 },
+ { 182,2085 }, { 183,2085 }, { 184,2085 }, { 185,2085 }, { 186,2085 },
+ { 187,2085 }, { 188,2085 }, { 189,2085 }, { 190,2085 }, { 191,2085 },
+ { 192,2085 }, { 193,2085 }, { 194,2085 }, { 195,2085 }, { 196,2085 },
+ { 197,2085 }, { 198,2085 }, { 199,2085 }, { 200,2085 }, { 201,2085 },
+ { 202,2085 }, { 203,2085 }, { 204,2085 }, { 205,2085 }, { 206,2085 },
+ { 207,2085 }, { 208,2085 }, { 209,2085 }, { 210,2085 }, { 211,2085 },
+
+ { 212,2085 }, { 213,2085 }, { 214,2085 }, { 215,2085 }, { 216,2085 },
+ { 217,2085 }, { 218,2085 }, { 219,2085 }, { 220,2085 }, { 221,2085 },
+ { 222,2085 }, { 223,2085 }, { 224,2085 }, { 225,2085 }, { 226,2085 },
+ { 227,2085 }, { 228,2085 }, { 229,2085 }, { 230,2085 }, { 231,2085 },
+ { 232,2085 }, { 233,2085 }, { 234,2085 }, { 235,2085 }, { 236,2085 },
+ { 237,2085 }, { 238,2085 }, { 239,2085 }, { 240,2085 }, { 241,2085 },
+ { 242,2085 }, { 243,2085 }, { 244,2085 }, { 245,2085 }, { 246,2085 },
+ { 247,2085 }, { 248,2085 }, { 249,2085 }, { 250,2085 }, { 251,2085 },
+ { 252,2085 }, { 253,2085 }, { 254,2085 }, { 255,2085 }, { 256,2085 },
+ {   0,  51 }, {   0,15007 }, {   1,1827 }, {   2,1827 }, {   3,1827 },
+
+ {   4,1827 }, {   5,1827 }, {   6,1827 }, {   7,1827 }, {   8,1827 },
+ {   9,1802 }, {  10,1802 }, {  11,1827 }, {  12,1827 }, {  13,1802 },
+ {  14,1827 }, {  15,1827 }, {  16,1827 }, {  17,1827 }, {  18,1827 },
+ {  19,1827 }, {  20,1827 }, {  21,1827 }, {  22,1827 }, {  23,1827 },
+ {  24,1827 }, {  25,1827 }, {  26,1827 }, {  27,1827 }, {  28,1827 },
+ {  29,1827 }, {  30,1827 }, {  31,1827 }, {  32,1802 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,1827 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,1802 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,1827 }, {  46,1802 }, {  47,1802 }, {  48,1827 },
+ {  49,1827 }, {  50,1827 }, {  51,1827 }, {  52,1827 }, {  53,1827 },
+
+ {  54,1827 }, {  55,1827 }, {  56,1827 }, {  57,1827 }, {  58,1827 },
+ {   0,   0 }, {   0,   0 }, {  61,1802 }, {   0,   0 }, {  63,1827 },
+ {   0,   0 }, {  65,1827 }, {  66,1827 }, {  67,1827 }, {  68,1827 },
+ {  69,1827 }, {  70,1827 }, {  71,1827 }, {  72,1827 }, {  73,1827 },
+ {  74,1827 }, {  75,1827 }, {  76,1827 }, {  77,1827 }, {  78,1827 },
+ {  79,1827 }, {  80,1827 }, {  81,1827 }, {  82,1827 }, {  83,1827 },
+ {  84,1827 }, {  85,1827 }, {  86,1827 }, {  87,1827 }, {  88,1827 },
+ {  89,1827 }, {  90,1827 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,1827 }, {   0,   0 }, {  97,1827 }, {  98,1827 },
+ {  99,1827 }, { 100,1827 }, { 101,1827 }, { 102,1827 }, { 103,1827 },
+
+ { 104,1827 }, { 105,1827 }, { 106,1827 }, { 107,1827 }, { 108,1827 },
+ { 109,1827 }, { 110,1827 }, { 111,1827 }, { 112,1827 }, { 113,1827 },
+ { 114,4758 }, { 115,1827 }, { 116,1827 }, { 117,1827 }, { 118,1827 },
+ { 119,1827 }, { 120,1827 }, { 121,1827 }, { 122,1827 }, {   0,   0 },
+ { 124,1802 }, { 125,1802 }, { 126,1802 }, { 127,1827 }, { 128,1827 },
+ { 129,1827 }, { 130,1827 }, { 131,1827 }, { 132,1827 }, { 133,1827 },
+ { 134,1827 }, { 135,1827 }, { 136,1827 }, { 137,1827 }, { 138,1827 },
+ { 139,1827 }, { 140,1827 }, { 141,1827 }, { 142,1827 }, { 143,1827 },
+ { 144,1827 }, { 145,1827 }, { 146,1827 }, { 147,1827 }, { 148,1827 },
+ { 149,1827 }, { 150,1827 }, { 151,1827 }, { 152,1827 }, { 153,1827 },
+
+ { 154,1827 }, { 155,1827 }, { 156,1827 }, { 157,1827 }, { 158,1827 },
+ { 159,1827 }, { 160,1827 }, { 161,1827 }, { 162,1827 }, { 163,1827 },
+ { 164,1827 }, { 165,1827 }, { 166,1827 }, { 167,1827 }, { 168,1827 },
+ { 169,1827 }, { 170,1827 }, { 171,1827 }, { 172,1827 }, { 173,1827 },
+ { 174,1827 }, { 175,1827 }, { 176,1827 }, { 177,1827 }, { 178,1827 },
+ { 179,1827 }, { 180,1827 }, { 181,1827 }, { 182,1827 }, { 183,1827 },
+ { 184,1827 }, { 185,1827 }, { 186,1827 }, { 187,1827 }, { 188,1827 },
+ { 189,1827 }, { 190,1827 }, { 191,1827 }, { 192,1827 }, { 193,1827 },
+ { 194,1827 }, { 195,1827 }, { 196,1827 }, { 197,1827 }, { 198,1827 },
+ { 199,1827 }, { 200,1827 }, { 201,1827 }, { 202,1827 }, { 203,1827 },
+
+ { 204,1827 }, { 205,1827 }, { 206,1827 }, { 207,1827 }, { 208,1827 },
+ { 209,1827 }, { 210,1827 }, { 211,1827 }, { 212,1827 }, { 213,1827 },
+ { 214,1827 }, { 215,1827 }, { 216,1827 }, { 217,1827 }, { 218,1827 },
+ { 219,1827 }, { 220,1827 }, { 221,1827 }, { 222,1827 }, { 223,1827 },
+ { 224,1827 }, { 225,1827 }, { 226,1827 }, { 227,1827 }, { 228,1827 },
+ { 229,1827 }, { 230,1827 }, { 231,1827 }, { 232,1827 }, { 233,1827 },
+ { 234,1827 }, { 235,1827 }, { 236,1827 }, { 237,1827 }, { 238,1827 },
+ { 239,1827 }, { 240,1827 }, { 241,1827 }, { 242,1827 }, { 243,1827 },
+ { 244,1827 }, { 245,1827 }, { 246,1827 }, { 247,1827 }, { 248,1827 },
+ { 249,1827 }, { 250,1827 }, { 251,1827 }, { 252,1827 }, { 253,1827 },
+
+ { 254,1827 }, { 255,1827 }, { 256,1827 }, {   0,  51 }, {   0,14749 },
+ {   1,1569 }, {   2,1569 }, {   3,1569 }, {   4,1569 }, {   5,1569 },
+ {   6,1569 }, {   7,1569 }, {   8,1569 }, {   9,1544 }, {  10,1544 },
+ {  11,1569 }, {  12,1569 }, {  13,1544 }, {  14,1569 }, {  15,1569 },
+ {  16,1569 }, {  17,1569 }, {  18,1569 }, {  19,1569 }, {  20,1569 },
+ {  21,1569 }, {  22,1569 }, {  23,1569 }, {  24,1569 }, {  25,1569 },
+ {  26,1569 }, {  27,1569 }, {  28,1569 }, {  29,1569 }, {  30,1569 },
+ {  31,1569 }, {  32,1544 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,1569 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,1544 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,1569 },
+
+ {  46,1544 }, {  47,1544 }, {  48,1569 }, {  49,1569 }, {  50,1569 },
+ {  51,1569 }, {  52,1569 }, {  53,1569 }, {  54,1569 }, {  55,1569 },
+ {  56,1569 }, {  57,1569 }, {  58,1569 }, {   0,   0 }, {   0,   0 },
+ {  61,1544 }, {   0,   0 }, {  63,1569 }, {   0,   0 }, {  65,1569 },
+ {  66,1569 }, {  67,1569 }, {  68,1569 }, {  69,1569 }, {  70,1569 },
+ {  71,1569 }, {  72,1569 }, {  73,1569 }, {  74,1569 }, {  75,1569 },
+ {  76,1569 }, {  77,1569 }, {  78,1569 }, {  79,1569 }, {  80,1569 },
+ {  81,1569 }, {  82,1569 }, {  83,1569 }, {  84,1569 }, {  85,1569 },
+ {  86,1569 }, {  87,1569 }, {  88,1569 }, {  89,1569 }, {  90,1569 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,1569 },
+
+ {   0,   0 }, {  97,1569 }, {  98,1569 }, {  99,1569 }, { 100,1569 },
+ { 101,1569 }, { 102,1569 }, { 103,1569 }, { 104,1569 }, { 105,1569 },
+ { 106,1569 }, { 107,1569 }, { 108,1569 }, { 109,1569 }, { 110,4758 },
+ { 111,1569 }, { 112,1569 }, { 113,1569 }, { 114,1569 }, { 115,1569 },
+ { 116,1569 }, { 117,1569 }, { 118,1569 }, { 119,1569 }, { 120,1569 },
+ { 121,1569 }, { 122,1569 }, {   0,   0 }, { 124,1544 }, { 125,1544 },
+ { 126,1544 }, { 127,1569 }, { 128,1569 }, { 129,1569 }, { 130,1569 },
+ { 131,1569 }, { 132,1569 }, { 133,1569 }, { 134,1569 }, { 135,1569 },
+ { 136,1569 }, { 137,1569 }, { 138,1569 }, { 139,1569 }, { 140,1569 },
+ { 141,1569 }, { 142,1569 }, { 143,1569 }, { 144,1569 }, { 145,1569 },
+
+ { 146,1569 }, { 147,1569 }, { 148,1569 }, { 149,1569 }, { 150,1569 },
+ { 151,1569 }, { 152,1569 }, { 153,1569 }, { 154,1569 }, { 155,1569 },
+ { 156,1569 }, { 157,1569 }, { 158,1569 }, { 159,1569 }, { 160,1569 },
+ { 161,1569 }, { 162,1569 }, { 163,1569 }, { 164,1569 }, { 165,1569 },
+ { 166,1569 }, { 167,1569 }, { 168,1569 }, { 169,1569 }, { 170,1569 },
+ { 171,1569 }, { 172,1569 }, { 173,1569 }, { 174,1569 }, { 175,1569 },
+ { 176,1569 }, { 177,1569 }, { 178,1569 }, { 179,1569 }, { 180,1569 },
+ { 181,1569 }, { 182,1569 }, { 183,1569 }, { 184,1569 }, { 185,1569 },
+ { 186,1569 }, { 187,1569 }, { 188,1569 }, { 189,1569 }, { 190,1569 },
+ { 191,1569 }, { 192,1569 }, { 193,1569 }, { 194,1569 }, { 195,1569 },
+
+ { 196,1569 }, { 197,1569 }, { 198,1569 }, { 199,1569 }, { 200,1569 },
+ { 201,1569 }, { 202,1569 }, { 203,1569 }, { 204,1569 }, { 205,1569 },
+ { 206,1569 }, { 207,1569 }, { 208,1569 }, { 209,1569 }, { 210,1569 },
+ { 211,1569 }, { 212,1569 }, { 213,1569 }, { 214,1569 }, { 215,1569 },
+ { 216,1569 }, { 217,1569 }, { 218,1569 }, { 219,1569 }, { 220,1569 },
+ { 221,1569 }, { 222,1569 }, { 223,1569 }, { 224,1569 }, { 225,1569 },
+ { 226,1569 }, { 227,1569 }, { 228,1569 }, { 229,1569 }, { 230,1569 },
+ { 231,1569 }, { 232,1569 }, { 233,1569 }, { 234,1569 }, { 235,1569 },
+ { 236,1569 }, { 237,1569 }, { 238,1569 }, { 239,1569 }, { 240,1569 },
+ { 241,1569 }, { 242,1569 }, { 243,1569 }, { 244,1569 }, { 245,1569 },
+
+ { 246,1569 }, { 247,1569 }, { 248,1569 }, { 249,1569 }, { 250,1569 },
+ { 251,1569 }, { 252,1569 }, { 253,1569 }, { 254,1569 }, { 255,1569 },
+ { 256,1569 }, {   0,  14 }, {   0,14491 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 123,4766 }, {   0,  14 }, {   0,14366 }, {   1,4769 }, {   2,4769 },
  {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 }, {   7,4769 },
  {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 }, {  12,4769 },
+
  {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 }, {  17,4769 },
  {  18,4769 }, {  19,4769 }, {  20,4769 }, {  21,4769 }, {  22,4769 },
  {  23,4769 }, {  24,4769 }, {  25,4769 }, {  26,4769 }, {  27,4769 },
  {  28,4769 }, {  29,4769 }, {  30,4769 }, {  31,4769 }, {  32,4769 },
  {  33,4769 }, {  34,4769 }, {  35,4769 }, {  36,4769 }, {  37,4769 },
-
  {  38,4769 }, {  39,4769 }, {  40,4769 }, {  41,4769 }, {  42,4769 },
  {  43,4769 }, {  44,4769 }, {  45,4769 }, {  46,4769 }, {  47,4769 },
  {  48,4769 }, {  49,4769 }, {  50,4769 }, {  51,4769 }, {  52,4769 },
  {  53,4769 }, {  54,4769 }, {  55,4769 }, {  56,4769 }, {  57,4769 },
  {  58,4769 }, {  59,4769 }, {  60,4769 }, {  61,4769 }, {  62,4769 },
+
  {  63,4769 }, {  64,4769 }, {  65,4769 }, {  66,4769 }, {  67,4769 },
  {  68,4769 }, {  69,4769 }, {  70,4769 }, {  71,4769 }, {  72,4769 },
  {  73,4769 }, {  74,4769 }, {  75,4769 }, {  76,4769 }, {  77,4769 },
  {  78,4769 }, {  79,4769 }, {  80,4769 }, {  81,4769 }, {  82,4769 },
  {  83,4769 }, {  84,4769 }, {  85,4769 }, {  86,4769 }, {  87,4769 },
-
  {  88,4769 }, {  89,4769 }, {  90,4769 }, {  91,4769 }, {  92,4769 },
  {  93,4769 }, {  94,4769 }, {  95,4769 }, {  96,4769 }, {  97,4769 },
  {  98,4769 }, {  99,4769 }, { 100,4769 }, { 101,4769 }, { 102,4769 },
  { 103,4769 }, { 104,4769 }, { 105,4769 }, { 106,4769 }, { 107,4769 },
  { 108,4769 }, { 109,4769 }, { 110,4769 }, { 111,4769 }, { 112,4769 },
+
  { 113,4769 }, { 114,4769 }, { 115,4769 }, { 116,4769 }, { 117,4769 },
  { 118,4769 }, { 119,4769 }, { 120,4769 }, { 121,4769 }, { 122,4769 },
  { 123,4769 }, { 124,4769 }, { 125,5027 }, { 126,4769 }, { 127,4769 },
  { 128,4769 }, { 129,4769 }, { 130,4769 }, { 131,4769 }, { 132,4769 },
  { 133,4769 }, { 134,4769 }, { 135,4769 }, { 136,4769 }, { 137,4769 },
-
  { 138,4769 }, { 139,4769 }, { 140,4769 }, { 141,4769 }, { 142,4769 },
  { 143,4769 }, { 144,4769 }, { 145,4769 }, { 146,4769 }, { 147,4769 },
  { 148,4769 }, { 149,4769 }, { 150,4769 }, { 151,4769 }, { 152,4769 },
  { 153,4769 }, { 154,4769 }, { 155,4769 }, { 156,4769 }, { 157,4769 },
  { 158,4769 }, { 159,4769 }, { 160,4769 }, { 161,4769 }, { 162,4769 },
+
  { 163,4769 }, { 164,4769 }, { 165,4769 }, { 166,4769 }, { 167,4769 },
  { 168,4769 }, { 169,4769 }, { 170,4769 }, { 171,4769 }, { 172,4769 },
  { 173,4769 }, { 174,4769 }, { 175,4769 }, { 176,4769 }, { 177,4769 },
  { 178,4769 }, { 179,4769 }, { 180,4769 }, { 181,4769 }, { 182,4769 },
  { 183,4769 }, { 184,4769 }, { 185,4769 }, { 186,4769 }, { 187,4769 },
-
  { 188,4769 }, { 189,4769 }, { 190,4769 }, { 191,4769 }, { 192,4769 },
  { 193,4769 }, { 194,4769 }, { 195,4769 }, { 196,4769 }, { 197,4769 },
  { 198,4769 }, { 199,4769 }, { 200,4769 }, { 201,4769 }, { 202,4769 },
  { 203,4769 }, { 204,4769 }, { 205,4769 }, { 206,4769 }, { 207,4769 },
  { 208,4769 }, { 209,4769 }, { 210,4769 }, { 211,4769 }, { 212,4769 },
+
  { 213,4769 }, { 214,4769 }, { 215,4769 }, { 216,4769 }, { 217,4769 },
  { 218,4769 }, { 219,4769 }, { 220,4769 }, { 221,4769 }, { 222,4769 },
  { 223,4769 }, { 224,4769 }, { 225,4769 }, { 226,4769 }, { 227,4769 },
  { 228,4769 }, { 229,4769 }, { 230,4769 }, { 231,4769 }, { 232,4769 },
  { 233,4769 }, { 234,4769 }, { 235,4769 }, { 236,4769 }, { 237,4769 },
-
  { 238,4769 }, { 239,4769 }, { 240,4769 }, { 241,4769 }, { 242,4769 },
  { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 }, { 247,4769 },
  { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 }, { 252,4769 },
- { 253,4769 }, { 254,4769 }, { 255,4769 }, { 256,4769 }, {   0,  51 },
- {   0,12962 }, {   1,4511 }, {   2,4511 }, {   3,4511 }, {   4,4511 },
+ { 253,4769 }, { 254,4769 }, { 255,4769 }, { 256,4769 }, {   0,  14 },
+ {   0,14108 }, {   1,4511 }, {   2,4511 }, {   3,4511 }, {   4,4511 },
+
  {   5,4511 }, {   6,4511 }, {   7,4511 }, {   8,4511 }, {   9,4511 },
  {  10,4511 }, {  11,4511 }, {  12,4511 }, {  13,4511 }, {  14,4511 },
  {  15,4511 }, {  16,4511 }, {  17,4511 }, {  18,4511 }, {  19,4511 },
  {  20,4511 }, {  21,4511 }, {  22,4511 }, {  23,4511 }, {  24,4511 },
  {  25,4511 }, {  26,4511 }, {  27,4511 }, {  28,4511 }, {  29,4511 },
-
  {  30,4511 }, {  31,4511 }, {  32,4511 }, {  33,4511 }, {  34,4511 },
  {  35,4511 }, {  36,4511 }, {  37,4511 }, {  38,4511 }, {  39,4511 },
  {  40,4511 }, {  41,4511 }, {  42,4511 }, {  43,4511 }, {  44,4511 },
  {  45,4511 }, {  46,4511 }, {  47,4511 }, {  48,4511 }, {  49,4511 },
  {  50,4511 }, {  51,4511 }, {  52,4511 }, {  53,4511 }, {  54,4511 },
+
  {  55,4511 }, {  56,4511 }, {  57,4511 }, {  58,4511 }, {  59,4511 },
  {  60,4511 }, {  61,4511 }, {  62,4511 }, {  63,4511 }, {  64,4511 },
  {  65,4511 }, {  66,4511 }, {  67,4511 }, {  68,4511 }, {  69,4511 },
  {  70,4511 }, {  71,4511 }, {  72,4511 }, {  73,4511 }, {  74,4511 },
  {  75,4511 }, {  76,4511 }, {  77,4511 }, {  78,4511 }, {  79,4511 },
-
  {  80,4511 }, {  81,4511 }, {  82,4511 }, {  83,4511 }, {  84,4511 },
  {  85,4511 }, {  86,4511 }, {  87,4511 }, {  88,4511 }, {  89,4511 },
  {  90,4511 }, {  91,4511 }, {  92,4511 }, {  93,4511 }, {  94,4511 },
  {  95,4511 }, {  96,4511 }, {  97,4511 }, {  98,4511 }, {  99,4511 },
  { 100,4511 }, { 101,4511 }, { 102,4511 }, { 103,4511 }, { 104,4511 },
+
  { 105,4511 }, { 106,4511 }, { 107,4511 }, { 108,4511 }, { 109,4511 },
  { 110,4511 }, { 111,4511 }, { 112,4511 }, { 113,4511 }, { 114,4511 },
  { 115,4511 }, { 116,4511 }, { 117,4511 }, { 118,4511 }, { 119,4511 },
  { 120,4511 }, { 121,4511 }, { 122,4511 }, { 123,4511 }, { 124,4511 },
  { 125,4387 }, { 126,4511 }, { 127,4511 }, { 128,4511 }, { 129,4511 },
-
  { 130,4511 }, { 131,4511 }, { 132,4511 }, { 133,4511 }, { 134,4511 },
  { 135,4511 }, { 136,4511 }, { 137,4511 }, { 138,4511 }, { 139,4511 },
  { 140,4511 }, { 141,4511 }, { 142,4511 }, { 143,4511 }, { 144,4511 },
  { 145,4511 }, { 146,4511 }, { 147,4511 }, { 148,4511 }, { 149,4511 },
  { 150,4511 }, { 151,4511 }, { 152,4511 }, { 153,4511 }, { 154,4511 },
+
  { 155,4511 }, { 156,4511 }, { 157,4511 }, { 158,4511 }, { 159,4511 },
  { 160,4511 }, { 161,4511 }, { 162,4511 }, { 163,4511 }, { 164,4511 },
  { 165,4511 }, { 166,4511 }, { 167,4511 }, { 168,4511 }, { 169,4511 },
  { 170,4511 }, { 171,4511 }, { 172,4511 }, { 173,4511 }, { 174,4511 },
  { 175,4511 }, { 176,4511 }, { 177,4511 }, { 178,4511 }, { 179,4511 },
-
  { 180,4511 }, { 181,4511 }, { 182,4511 }, { 183,4511 }, { 184,4511 },
  { 185,4511 }, { 186,4511 }, { 187,4511 }, { 188,4511 }, { 189,4511 },
  { 190,4511 }, { 191,4511 }, { 192,4511 }, { 193,4511 }, { 194,4511 },
  { 195,4511 }, { 196,4511 }, { 197,4511 }, { 198,4511 }, { 199,4511 },
  { 200,4511 }, { 201,4511 }, { 202,4511 }, { 203,4511 }, { 204,4511 },
+
  { 205,4511 }, { 206,4511 }, { 207,4511 }, { 208,4511 }, { 209,4511 },
  { 210,4511 }, { 211,4511 }, { 212,4511 }, { 213,4511 }, { 214,4511 },
  { 215,4511 }, { 216,4511 }, { 217,4511 }, { 218,4511 }, { 219,4511 },
  { 220,4511 }, { 221,4511 }, { 222,4511 }, { 223,4511 }, { 224,4511 },
  { 225,4511 }, { 226,4511 }, { 227,4511 }, { 228,4511 }, { 229,4511 },
-
  { 230,4511 }, { 231,4511 }, { 232,4511 }, { 233,4511 }, { 234,4511 },
  { 235,4511 }, { 236,4511 }, { 237,4511 }, { 238,4511 }, { 239,4511 },
  { 240,4511 }, { 241,4511 }, { 242,4511 }, { 243,4511 }, { 244,4511 },
  { 245,4511 }, { 246,4511 }, { 247,4511 }, { 248,4511 }, { 249,4511 },
  { 250,4511 }, { 251,4511 }, { 252,4511 }, { 253,4511 }, { 254,4511 },
- { 255,4511 }, { 256,4511 }, {   0,  10 }, {   0,12704 }, {   1,4769 },
+
+ { 255,4511 }, { 256,4511 }, {   0,  10 }, {   0,13850 }, {   1,4769 },
  {   2,4769 }, {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 },
  {   7,4769 }, {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 },
  {  12,4769 }, {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 },
  {  17,4769 }, {  18,4769 }, {  19,4769 }, {  20,4769 }, {  21,4769 },
-
  {  22,4769 }, {  23,4769 }, {  24,4769 }, {  25,4769 }, {  26,4769 },
  {  27,4769 }, {  28,4769 }, {  29,4769 }, {  30,4769 }, {  31,4769 },
  {  32,4769 }, {  33,4769 }, {  34,4769 }, {  35,4769 }, {  36,4769 },
  {  37,4769 }, {  38,4769 }, {  39,4769 }, {  40,4769 }, {  41,4769 },
  {  42,4769 }, {  43,4769 }, {  44,4769 }, {  45,4769 }, {  46,4769 },
+
  {  47,4769 }, {  48,4769 }, {  49,4769 }, {  50,4769 }, {  51,4769 },
  {  52,4769 }, {  53,4769 }, {  54,4769 }, {  55,4769 }, {  56,4769 },
  {  57,4769 }, {  58,4769 }, {  59,4769 }, {  60,4769 }, {  61,4769 },
  {  62,4769 }, {  63,4769 }, {  64,4769 }, {  65,4769 }, {  66,4769 },
  {  67,4769 }, {  68,4769 }, {  69,4769 }, {  70,4769 }, {  71,4769 },
-
  {  72,4769 }, {  73,4769 }, {  74,4769 }, {  75,4769 }, {  76,4769 },
  {  77,4769 }, {  78,4769 }, {  79,4769 }, {  80,4769 }, {  81,4769 },
  {  82,4769 }, {  83,4769 }, {  84,4769 }, {  85,4769 }, {  86,4769 },
  {  87,4769 }, {  88,4769 }, {  89,4769 }, {  90,4769 }, {  91,4769 },
  {  92,4769 }, {  93,4769 }, {  94,4769 }, {  95,4769 }, {  96,4769 },
+
  {  97,4769 }, {  98,4769 }, {  99,4769 }, { 100,4769 }, { 101,4769 },
  { 102,4769 }, { 103,4769 }, { 104,4769 }, { 105,4769 }, { 106,4769 },
  { 107,4769 }, { 108,4769 }, { 109,4769 }, { 110,4769 }, { 111,4769 },
  { 112,4769 }, { 113,4769 }, { 114,4769 }, { 115,4769 }, { 116,4769 },
  { 117,4769 }, { 118,4769 }, { 119,4769 }, { 120,4769 }, { 121,4769 },
-
  { 122,4769 }, {   0,   0 }, { 124,4769 }, { 125,4769 }, { 126,4769 },
  { 127,4769 }, { 128,4769 }, { 129,4769 }, { 130,4769 }, { 131,4769 },
  { 132,4769 }, { 133,4769 }, { 134,4769 }, { 135,4769 }, { 136,4769 },
  { 137,4769 }, { 138,4769 }, { 139,4769 }, { 140,4769 }, { 141,4769 },
  { 142,4769 }, { 143,4769 }, { 144,4769 }, { 145,4769 }, { 146,4769 },
+
  { 147,4769 }, { 148,4769 }, { 149,4769 }, { 150,4769 }, { 151,4769 },
  { 152,4769 }, { 153,4769 }, { 154,4769 }, { 155,4769 }, { 156,4769 },
  { 157,4769 }, { 158,4769 }, { 159,4769 }, { 160,4769 }, { 161,4769 },
  { 162,4769 }, { 163,4769 }, { 164,4769 }, { 165,4769 }, { 166,4769 },
  { 167,4769 }, { 168,4769 }, { 169,4769 }, { 170,4769 }, { 171,4769 },
-
  { 172,4769 }, { 173,4769 }, { 174,4769 }, { 175,4769 }, { 176,4769 },
  { 177,4769 }, { 178,4769 }, { 179,4769 }, { 180,4769 }, { 181,4769 },
  { 182,4769 }, { 183,4769 }, { 184,4769 }, { 185,4769 }, { 186,4769 },
  { 187,4769 }, { 188,4769 }, { 189,4769 }, { 190,4769 }, { 191,4769 },
  { 192,4769 }, { 193,4769 }, { 194,4769 }, { 195,4769 }, { 196,4769 },
+
  { 197,4769 }, { 198,4769 }, { 199,4769 }, { 200,4769 }, { 201,4769 },
  { 202,4769 }, { 203,4769 }, { 204,4769 }, { 205,4769 }, { 206,4769 },
  { 207,4769 }, { 208,4769 }, { 209,4769 }, { 210,4769 }, { 211,4769 },
  { 212,4769 }, { 213,4769 }, { 214,4769 }, { 215,4769 }, { 216,4769 },
  { 217,4769 }, { 218,4769 }, { 219,4769 }, { 220,4769 }, { 221,4769 },
-
  { 222,4769 }, { 223,4769 }, { 224,4769 }, { 225,4769 }, { 226,4769 },
  { 227,4769 }, { 228,4769 }, { 229,4769 }, { 230,4769 }, { 231,4769 },
  { 232,4769 }, { 233,4769 }, { 234,4769 }, { 235,4769 }, { 236,4769 },
  { 237,4769 }, { 238,4769 }, { 239,4769 }, { 240,4769 }, { 241,4769 },
  { 242,4769 }, { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 },
+
  { 247,4769 }, { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 },
  { 252,4769 }, { 253,4769 }, { 254,4769 }, { 255,4769 }, {   0,  11 },
- {   0,12447 }, {   0,   2 }, {   0,12445 }, {   0,   0 }, {   0,12443 },
+ {   0,13593 }, {   0,   2 }, {   0,13591 }, {   0,   0 }, {   0,13589 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 },
-
  {  13,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  92,   2 },
  {   0,   0 }, {  92,4767 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,4769 }, {   0,   2 },
- {   0,12322 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   0,13468 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
  {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
  {  10,-123 }, {  11,   0 }, {  12,   0 }, {  13,-123 }, {  14,   0 },
+
  {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
  {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 },
  {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 },
  {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 },
  {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 },
-
  {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 },
  {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 },
  {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 },
  {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 },
  {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 },
+
  {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 },
  {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 },
  {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 },
  {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 },
  {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 },
-
  {  90,   0 }, {  91,   0 }, {  92,-121 }, {  93,   0 }, {  94,   0 },
  {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 },
  { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 },
  { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 },
  { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 },
+
  { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 },
  { 120,   0 }, { 121,   0 }, { 122,   0 }, {   0,   0 }, { 124,   0 },
  { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 },
  { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 },
  { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 },
-
  { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 },
  { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 },
  { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 },
  { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 },
  { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 },
+
  { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 },
  { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 },
  { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 },
  { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 },
  { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 },
-
  { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 },
  { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 },
  { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 },
  { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 },
  { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 },
+
  { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 },
  { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 },
  { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 },
  { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 },
  { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 },
-
  { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, {   0,   0 }, {   0,12065 }, {   0,   0 }, {   0,12063 },
- {   0,   5 }, {   0,12061 }, {   0,  48 }, {   0,12059 }, {   0,   0 },
+ { 255,   0 }, {   0,   0 }, {   0,13211 }, {   0,   0 }, {   0,13209 },
+ {   0,   5 }, {   0,13207 }, {   0,  49 }, {   0,13205 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,12034 }, {   1,   0 },
-
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,13180 }, {   1,   0 },
  {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
  {   7,   0 }, {   8,   0 }, {   9, -25 }, {  10, -25 }, {  11,   0 },
  {  12,   0 }, {  13, -25 }, {  14,   0 }, {  15,   0 }, {  16,   0 },
  {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 },
  {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 },
+
  {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 },
  {  32, -25 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41, -25 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,   0 }, {  46, -25 },
  {  47, -25 }, {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 },
-
  {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 },
  {  57,   0 }, {  58,   0 }, {   0,   0 }, {   0,   0 }, {  61, -25 },
  {   0,   0 }, {  63,   0 }, {   0,   0 }, {  65,   0 }, {  66,   0 },
  {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 },
  {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 },
+
  {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 },
  {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 },
  {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 }, {   0,   0 },
  { 123,4391 }, {   0,   0 }, { 123,4514 }, {  95,   0 }, { 123,4389 },
  {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 },
-
  { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 },
  { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 },
  { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 },
  { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 },
  { 122,   0 }, {   0,   0 }, { 124, -25 }, { 125, -25 }, { 126, -25 },
+
  { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 },
  { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 },
  { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 },
  { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 },
  { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 },
-
  { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 },
  { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 },
  { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 },
  { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 },
  { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 },
+
  { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 },
  { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 },
  { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 },
  { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 },
  { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 },
-
  { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 },
  { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 },
  { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 },
  { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 },
  { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 },
+
  { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 },
  { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 },
  { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 },
  { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
  { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
-
  { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,  35 }, {   0,11776 }, {   0,  38 }, {   0,11774 }, {   0,  39 },
- {   0,11772 }, {   0,  33 }, {   0,11770 }, {   0,  32 }, {   0,11768 },
- {   9,   0 }, {  10,   0 }, {   0,  47 }, {   0,11764 }, {  13,   0 },
- {   0,  49 }, {   0,11761 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  36 }, {   0,12922 }, {   0,  39 }, {   0,12920 }, {   0,  40 },
+ {   0,12918 }, {   0,  34 }, {   0,12916 }, {   0,  33 }, {   0,12914 },
+ {   9,   0 }, {  10,   0 }, {   0,  48 }, {   0,12910 }, {  13,   0 },
+ {   0,  50 }, {   0,12907 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
- {   0,11742 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   0,12888 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
  {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
-
  {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 },
  {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
  {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 },
  {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 },
  {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34, -32 },
+
  {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 },
  {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 },
  {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 },
  {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 },
  {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 },
-
  {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 },
  {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 },
  {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 },
  {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 },
  {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 },
+
  {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 },
  {  90,   0 }, {  91,   0 }, {  92, 258 }, {  93,   0 }, {  94,   0 },
  {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 },
  { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 },
  { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 },
-
  { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 },
  { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 },
  { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 }, { 124,   0 },
  { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 },
  { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 },
+
  { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 },
  { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 },
  { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 },
  { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 },
  { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 },
-
  { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 },
  { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 },
  { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 },
  { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 },
  { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 },
+
  { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 },
  { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 },
  { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 },
  { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 },
  { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 },
-
  { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 },
  { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 },
  { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 },
  { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 },
  { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 },
+
  { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 },
  { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,11484 }, {   1,-258 },
-
+ { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,12630 }, {   1,-258 },
  {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 },
  {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 },
  {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 }, {  16,-258 },
  {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 }, {  21,-258 },
  {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 }, {  26,-258 },
+
  {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 }, {  31,-258 },
  {  32,-258 }, {  33,-258 }, {  34,4192 }, {  35,-258 }, {  36,-258 },
  {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 }, {  41,-258 },
  {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-258 }, {  46,-258 },
  {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 }, {  51,-258 },
-
  {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 }, {  56,-258 },
  {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 }, {  61,-258 },
  {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 }, {  66,-258 },
  {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 }, {  71,-258 },
  {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 }, {  76,-258 },
+
  {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 }, {  81,-258 },
  {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 }, {  86,-258 },
  {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 }, {  91,-258 },
  {  92,   0 }, {  93,-258 }, {  94,-258 }, {  95,-258 }, {  96,-258 },
  {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 }, { 101,-258 },
-
  { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 }, { 106,-258 },
  { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 }, { 111,-258 },
  { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 }, { 116,-258 },
  { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 }, { 121,-258 },
  { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-258 }, { 126,-258 },
+
  { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 }, { 131,-258 },
  { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 }, { 136,-258 },
  { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 }, { 141,-258 },
  { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 }, { 146,-258 },
  { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 }, { 151,-258 },
-
  { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 }, { 156,-258 },
  { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 }, { 161,-258 },
  { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 }, { 166,-258 },
  { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 }, { 171,-258 },
  { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 }, { 176,-258 },
+
  { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 }, { 181,-258 },
  { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 }, { 186,-258 },
  { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 }, { 191,-258 },
  { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 }, { 196,-258 },
  { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 }, { 201,-258 },
-
  { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 }, { 206,-258 },
  { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 }, { 211,-258 },
  { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 }, { 216,-258 },
  { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 }, { 221,-258 },
  { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 }, { 226,-258 },
+
  { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 }, { 231,-258 },
  { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 }, { 236,-258 },
  { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 }, { 241,-258 },
  { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 },
  { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 },
-
  { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 },
- {   0,   0 }, {   0,11226 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   0,   0 }, {   0,12372 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
+
  {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
  {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
  {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
  {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
  {  39,-546 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
-
  {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
  {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
  {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
  {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
  {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
+
  {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
  {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
  {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
  {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
  {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92, 258 }, {  93,   0 },
-
  {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
  {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
  { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
  { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
  { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
+
  { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 },
  { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
  { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
  { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
  { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
-
  { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
  { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
  { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
  { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
  { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
+
  { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
  { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
  { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
  { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
  { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
-
  { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
  { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
  { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
  { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
  { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
+
  { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
  { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
  { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
  { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
  { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
-
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,10968 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,12114 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
+
  {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
  {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 },
  {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 },
  {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 },
  {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 },
-
  {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,3934 }, {  40,-258 },
  {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-258 },
  {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 },
  {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 },
  {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 },
+
  {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 },
  {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 },
  {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 },
  {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 },
  {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 },
-
  {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 },
  {  91,-258 }, {  92,   0 }, {  93,-258 }, {  94,-258 }, {  95,-258 },
  {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 },
  { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 },
  { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 },
+
  { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 },
  { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 },
  { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-258 },
  { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 },
  { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 },
-
  { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 },
  { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 },
  { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 },
  { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 },
  { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 },
+
  { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 },
  { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 },
  { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 },
  { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 },
  { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 },
-
  { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 },
  { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 },
  { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 },
  { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 },
  { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 },
+
  { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 },
  { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 },
  { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 },
  { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 },
  { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 },
-
  { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 },
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,   0 }, {   0,10710 }, {   1,-1324 }, {   2,-1324 },
+ { 256,-258 }, {   0,   0 }, {   0,11856 }, {   1,-1324 }, {   2,-1324 },
+
  {   3,-1324 }, {   4,-1324 }, {   5,-1324 }, {   6,-1324 }, {   7,-1324 },
  {   8,-1324 }, {   9,-1054 }, {  10,-1054 }, {  11,-1324 }, {  12,-1324 },
  {  13,-1054 }, {  14,-1324 }, {  15,-1324 }, {  16,-1324 }, {  17,-1324 },
  {  18,-1324 }, {  19,-1324 }, {  20,-1324 }, {  21,-1324 }, {  22,-1324 },
  {  23,-1324 }, {  24,-1324 }, {  25,-1324 }, {  26,-1324 }, {  27,-1324 },
-
  {  28,-1324 }, {  29,-1324 }, {  30,-1324 }, {  31,-1324 }, {  32,-1054 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-1324 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-1054 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  45,-1324 }, {  46, 258 }, {  47,-1349 },
  {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
+
  {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
  {  58,-1324 }, {   0,   0 }, {   0,   0 }, {  61,-1349 }, {   0,   0 },
  {  63,-1324 }, {   0,   0 }, {  65,-1324 }, {  66,-1324 }, {  67,-1324 },
  {  68,-1324 }, {  69,-1324 }, {  70,-1324 }, {  71,-1324 }, {  72,-1324 },
  {  73,-1324 }, {  74,-1324 }, {  75,-1324 }, {  76,-1324 }, {  77,-1324 },
-
  {  78,-1324 }, {  79,-1324 }, {  80,-1324 }, {  81,-1324 }, {  82,-1324 },
  {  83,-1324 }, {  84,-1324 }, {  85,-1324 }, {  86,-1324 }, {  87,-1324 },
  {  88,-1324 }, {  89,-1324 }, {  90,-1324 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  95,-1324 }, {   0,   0 }, {  97,-1324 },
  {  98,-1324 }, {  99,-1324 }, { 100,-1324 }, { 101,-1324 }, { 102,-1324 },
+
  { 103,-1324 }, { 104,-1324 }, { 105,-1324 }, { 106,-1324 }, { 107,-1324 },
  { 108,-1324 }, { 109,-1324 }, { 110,-1324 }, { 111,-1324 }, { 112,-1324 },
  { 113,-1324 }, { 114,-1324 }, { 115,-1324 }, { 116,-1324 }, { 117,-1324 },
  { 118,-1324 }, { 119,-1324 }, { 120,-1324 }, { 121,-1324 }, { 122,-1324 },
  {   0,   0 }, { 124,-1349 }, { 125,-1054 }, { 126,-1054 }, { 127,-1324 },
-
  { 128,-1324 }, { 129,-1324 }, { 130,-1324 }, { 131,-1324 }, { 132,-1324 },
  { 133,-1324 }, { 134,-1324 }, { 135,-1324 }, { 136,-1324 }, { 137,-1324 },
  { 138,-1324 }, { 139,-1324 }, { 140,-1324 }, { 141,-1324 }, { 142,-1324 },
  { 143,-1324 }, { 144,-1324 }, { 145,-1324 }, { 146,-1324 }, { 147,-1324 },
  { 148,-1324 }, { 149,-1324 }, { 150,-1324 }, { 151,-1324 }, { 152,-1324 },
+
  { 153,-1324 }, { 154,-1324 }, { 155,-1324 }, { 156,-1324 }, { 157,-1324 },
  { 158,-1324 }, { 159,-1324 }, { 160,-1324 }, { 161,-1324 }, { 162,-1324 },
  { 163,-1324 }, { 164,-1324 }, { 165,-1324 }, { 166,-1324 }, { 167,-1324 },
  { 168,-1324 }, { 169,-1324 }, { 170,-1324 }, { 171,-1324 }, { 172,-1324 },
  { 173,-1324 }, { 174,-1324 }, { 175,-1324 }, { 176,-1324 }, { 177,-1324 },
-
  { 178,-1324 }, { 179,-1324 }, { 180,-1324 }, { 181,-1324 }, { 182,-1324 },
  { 183,-1324 }, { 184,-1324 }, { 185,-1324 }, { 186,-1324 }, { 187,-1324 },
  { 188,-1324 }, { 189,-1324 }, { 190,-1324 }, { 191,-1324 }, { 192,-1324 },
  { 193,-1324 }, { 194,-1324 }, { 195,-1324 }, { 196,-1324 }, { 197,-1324 },
  { 198,-1324 }, { 199,-1324 }, { 200,-1324 }, { 201,-1324 }, { 202,-1324 },
+
  { 203,-1324 }, { 204,-1324 }, { 205,-1324 }, { 206,-1324 }, { 207,-1324 },
  { 208,-1324 }, { 209,-1324 }, { 210,-1324 }, { 211,-1324 }, { 212,-1324 },
  { 213,-1324 }, { 214,-1324 }, { 215,-1324 }, { 216,-1324 }, { 217,-1324 },
  { 218,-1324 }, { 219,-1324 }, { 220,-1324 }, { 221,-1324 }, { 222,-1324 },
  { 223,-1324 }, { 224,-1324 }, { 225,-1324 }, { 226,-1324 }, { 227,-1324 },
-
  { 228,-1324 }, { 229,-1324 }, { 230,-1324 }, { 231,-1324 }, { 232,-1324 },
  { 233,-1324 }, { 234,-1324 }, { 235,-1324 }, { 236,-1324 }, { 237,-1324 },
  { 238,-1324 }, { 239,-1324 }, { 240,-1324 }, { 241,-1324 }, { 242,-1324 },
  { 243,-1324 }, { 244,-1324 }, { 245,-1324 }, { 246,-1324 }, { 247,-1324 },
  { 248,-1324 }, { 249,-1324 }, { 250,-1324 }, { 251,-1324 }, { 252,-1324 },
- { 253,-1324 }, { 254,-1324 }, { 255,-1324 }, { 256,-1324 }, {   0,  48 },
- {   0,10452 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ { 253,-1324 }, { 254,-1324 }, { 255,-1324 }, { 256,-1324 }, {   0,  49 },
+ {   0,11598 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  48,3676 }, {  49,3676 },
  {  50,3676 }, {  51,3676 }, {  52,3676 }, {  53,3676 }, {  54,3676 },
- {  55,3676 }, {  56,3676 }, {  57,3676 }, {   0,   0 }, {   0,10393 },
+ {  55,3676 }, {  56,3676 }, {  57,3676 }, {   0,   0 }, {   0,11539 },
  {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
  {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 },
-
  {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 }, {  15,   0 },
  {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 },
  {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 },
  {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 },
  {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 }, {  35,   0 },
+
  {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 }, {  40,   0 },
  {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45,   0 },
  {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 },
  {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 },
  {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 }, {  60,   0 },
-
  {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 }, {  65,   0 },
  {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 },
  {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 },
  {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 },
  {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 },
+
  {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 },
  {  91,   0 }, {  92, 258 }, {  93,-1368 }, {  94,   0 }, {  95,   0 },
  {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 },
  { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 },
  { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 },
-
  { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 },
  { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 },
  { 121,   0 }, { 122,   0 }, { 123,   0 }, { 124,   0 }, { 125,   0 },
  { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 },
  { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 },
+
  { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 },
  { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 },
  { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 },
  { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 },
  { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 },
-
  { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 },
  { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 },
  { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 },
  { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 },
  { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 },
+
  { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 },
  { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 },
  { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 },
  { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 },
  { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 },
-
  { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 },
  { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 },
  { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 },
  { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 },
  { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 },
+
  { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 },
  { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
  { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
  { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
- { 256,   0 }, {   0,   0 }, {   0,10135 }, {   1,-258 }, {   2,-258 },
-
+ { 256,   0 }, {   0,   0 }, {   0,11281 }, {   1,-258 }, {   2,-258 },
  {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 },
  {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 },
  {  13,-258 }, {  14,-258 }, {  15,-258 }, {  16,-258 }, {  17,-258 },
  {  18,-258 }, {  19,-258 }, {  20,-258 }, {  21,-258 }, {  22,-258 },
  {  23,-258 }, {  24,-258 }, {  25,-258 }, {  26,-258 }, {  27,-258 },
+
  {  28,-258 }, {  29,-258 }, {  30,-258 }, {  31,-258 }, {  32,-258 },
  {  33,-258 }, {  34,-258 }, {  35,-258 }, {  36,-258 }, {  37,-258 },
  {  38,-258 }, {  39,-258 }, {  40,-258 }, {  41,-258 }, {  42,-258 },
  {  43,-258 }, {  44,-258 }, {  45,-258 }, {  46,-258 }, {  47,-258 },
  {  48,-258 }, {  49,-258 }, {  50,-258 }, {  51,-258 }, {  52,-258 },
-
  {  53,-258 }, {  54,-258 }, {  55,-258 }, {  56,-258 }, {  57,-258 },
  {  58,-258 }, {  59,-258 }, {  60,-258 }, {  61,-258 }, {  62,-258 },
  {  63,-258 }, {  64,-258 }, {  65,-258 }, {  66,-258 }, {  67,-258 },
  {  68,-258 }, {  69,-258 }, {  70,-258 }, {  71,-258 }, {  72,-258 },
  {  73,-258 }, {  74,-258 }, {  75,-258 }, {  76,-258 }, {  77,-258 },
+
  {  78,-258 }, {  79,-258 }, {  80,-258 }, {  81,-258 }, {  82,-258 },
  {  83,-258 }, {  84,-258 }, {  85,-258 }, {  86,-258 }, {  87,-258 },
  {  88,-258 }, {  89,-258 }, {  90,-258 }, {  91,-258 }, {  92,   0 },
  {  93,3487 }, {  94,-258 }, {  95,-258 }, {  96,-258 }, {  97,-258 },
  {  98,-258 }, {  99,-258 }, { 100,-258 }, { 101,-258 }, { 102,-258 },
-
  { 103,-258 }, { 104,-258 }, { 105,-258 }, { 106,-258 }, { 107,-258 },
  { 108,-258 }, { 109,-258 }, { 110,-258 }, { 111,-258 }, { 112,-258 },
  { 113,-258 }, { 114,-258 }, { 115,-258 }, { 116,-258 }, { 117,-258 },
  { 118,-258 }, { 119,-258 }, { 120,-258 }, { 121,-258 }, { 122,-258 },
  { 123,-258 }, { 124,-258 }, { 125,-258 }, { 126,-258 }, { 127,-258 },
+
  { 128,-258 }, { 129,-258 }, { 130,-258 }, { 131,-258 }, { 132,-258 },
  { 133,-258 }, { 134,-258 }, { 135,-258 }, { 136,-258 }, { 137,-258 },
  { 138,-258 }, { 139,-258 }, { 140,-258 }, { 141,-258 }, { 142,-258 },
  { 143,-258 }, { 144,-258 }, { 145,-258 }, { 146,-258 }, { 147,-258 },
  { 148,-258 }, { 149,-258 }, { 150,-258 }, { 151,-258 }, { 152,-258 },
-
  { 153,-258 }, { 154,-258 }, { 155,-258 }, { 156,-258 }, { 157,-258 },
  { 158,-258 }, { 159,-258 }, { 160,-258 }, { 161,-258 }, { 162,-258 },
  { 163,-258 }, { 164,-258 }, { 165,-258 }, { 166,-258 }, { 167,-258 },
  { 168,-258 }, { 169,-258 }, { 170,-258 }, { 171,-258 }, { 172,-258 },
  { 173,-258 }, { 174,-258 }, { 175,-258 }, { 176,-258 }, { 177,-258 },
+
  { 178,-258 }, { 179,-258 }, { 180,-258 }, { 181,-258 }, { 182,-258 },
  { 183,-258 }, { 184,-258 }, { 185,-258 }, { 186,-258 }, { 187,-258 },
  { 188,-258 }, { 189,-258 }, { 190,-258 }, { 191,-258 }, { 192,-258 },
  { 193,-258 }, { 194,-258 }, { 195,-258 }, { 196,-258 }, { 197,-258 },
  { 198,-258 }, { 199,-258 }, { 200,-258 }, { 201,-258 }, { 202,-258 },
-
  { 203,-258 }, { 204,-258 }, { 205,-258 }, { 206,-258 }, { 207,-258 },
  { 208,-258 }, { 209,-258 }, { 210,-258 }, { 211,-258 }, { 212,-258 },
  { 213,-258 }, { 214,-258 }, { 215,-258 }, { 216,-258 }, { 217,-258 },
  { 218,-258 }, { 219,-258 }, { 220,-258 }, { 221,-258 }, { 222,-258 },
  { 223,-258 }, { 224,-258 }, { 225,-258 }, { 226,-258 }, { 227,-258 },
+
  { 228,-258 }, { 229,-258 }, { 230,-258 }, { 231,-258 }, { 232,-258 },
  { 233,-258 }, { 234,-258 }, { 235,-258 }, { 236,-258 }, { 237,-258 },
  { 238,-258 }, { 239,-258 }, { 240,-258 }, { 241,-258 }, { 242,-258 },
  { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 }, { 247,-258 },
  { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 },
-
  { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 },
- {   0,9877 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
+ {   0,11023 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
  {   5,-2157 }, {   6,-2157 }, {   7,-2157 }, {   8,-2157 }, {   9,2296 },
  {  10,2296 }, {  11,-2157 }, {  12,-2157 }, {  13,2296 }, {  14,-2157 },
  {  15,-2157 }, {  16,-2157 }, {  17,-2157 }, {  18,-2157 }, {  19,-2157 },
+
  {  20,-2157 }, {  21,-2157 }, {  22,-2157 }, {  23,-2157 }, {  24,-2157 },
  {  25,-2157 }, {  26,-2157 }, {  27,-2157 }, {  28,-2157 }, {  29,-2157 },
  {  30,-2157 }, {  31,-2157 }, {  32,2296 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  36,-2157 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  41,-2182 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {  45,-2157 }, {  46,-2182 }, {  47,-2182 }, {  48,-2157 }, {  49,-2157 },
  {  50,-2157 }, {  51,-2157 }, {  52,-2157 }, {  53,-2157 }, {  54,-2157 },
  {  55,-2157 }, {  56,-2157 }, {  57,-2157 }, {  58,-2157 }, {   0,   0 },
  {   0,   0 }, {  61,-2182 }, {   0,   0 }, {  63,-2157 }, {   0,   0 },
  {  65,-2157 }, {  66,-2157 }, {  67,-2157 }, {  68,-2157 }, {  69,-2157 },
+
  {  70,-2157 }, {  71,-2157 }, {  72,-2157 }, {  73,-2157 }, {  74,-2157 },
  {  75,-2157 }, {  76,-2157 }, {  77,-2157 }, {  78,-2157 }, {  79,-2157 },
  {  80,-2157 }, {  81,-2157 }, {  82,-2157 }, {  83,-2157 }, {  84,-2157 },
  {  85,-2157 }, {  86,-2157 }, {  87,-2157 }, {  88,-2157 }, {  89,-2157 },
  {  90,-2157 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {  95,-2157 }, {   0,   0 }, {  97,-2157 }, {  98,-2157 }, {  99,-2157 },
  { 100,-2157 }, { 101,-2157 }, { 102,-2157 }, { 103,-2157 }, { 104,-2157 },
  { 105,-2157 }, { 106,-2157 }, { 107,-2157 }, { 108,-2157 }, { 109,-2157 },
  { 110,-2157 }, { 111,-2157 }, { 112,-2157 }, { 113,-2157 }, { 114,-2157 },
  { 115,-2157 }, { 116,-2157 }, { 117,-2157 }, { 118,-2157 }, { 119,-2157 },
+
  { 120,-2157 }, { 121,-2157 }, { 122,-2157 }, {   0,   0 }, { 124,-2182 },
  { 125,-2182 }, { 126,-2182 }, { 127,-2157 }, { 128,-2157 }, { 129,-2157 },
  { 130,-2157 }, { 131,-2157 }, { 132,-2157 }, { 133,-2157 }, { 134,-2157 },
  { 135,-2157 }, { 136,-2157 }, { 137,-2157 }, { 138,-2157 }, { 139,-2157 },
  { 140,-2157 }, { 141,-2157 }, { 142,-2157 }, { 143,-2157 }, { 144,-2157 },
-
  { 145,-2157 }, { 146,-2157 }, { 147,-2157 }, { 148,-2157 }, { 149,-2157 },
  { 150,-2157 }, { 151,-2157 }, { 152,-2157 }, { 153,-2157 }, { 154,-2157 },
  { 155,-2157 }, { 156,-2157 }, { 157,-2157 }, { 158,-2157 }, { 159,-2157 },
  { 160,-2157 }, { 161,-2157 }, { 162,-2157 }, { 163,-2157 }, { 164,-2157 },
  { 165,-2157 }, { 166,-2157 }, { 167,-2157 }, { 168,-2157 }, { 169,-2157 },
+
  { 170,-2157 }, { 171,-2157 }, { 172,-2157 }, { 173,-2157 }, { 174,-2157 },
  { 175,-2157 }, { 176,-2157 }, { 177,-2157 }, { 178,-2157 }, { 179,-2157 },
  { 180,-2157 }, { 181,-2157 }, { 182,-2157 }, { 183,-2157 }, { 184,-2157 },
  { 185,-2157 }, { 186,-2157 }, { 187,-2157 }, { 188,-2157 }, { 189,-2157 },
  { 190,-2157 }, { 191,-2157 }, { 192,-2157 }, { 193,-2157 }, { 194,-2157 },
-
  { 195,-2157 }, { 196,-2157 }, { 197,-2157 }, { 198,-2157 }, { 199,-2157 },
  { 200,-2157 }, { 201,-2157 }, { 202,-2157 }, { 203,-2157 }, { 204,-2157 },
  { 205,-2157 }, { 206,-2157 }, { 207,-2157 }, { 208,-2157 }, { 209,-2157 },
  { 210,-2157 }, { 211,-2157 }, { 212,-2157 }, { 213,-2157 }, { 214,-2157 },
  { 215,-2157 }, { 216,-2157 }, { 217,-2157 }, { 218,-2157 }, { 219,-2157 },
+
  { 220,-2157 }, { 221,-2157 }, { 222,-2157 }, { 223,-2157 }, { 224,-2157 },
  { 225,-2157 }, { 226,-2157 }, { 227,-2157 }, { 228,-2157 }, { 229,-2157 },
  { 230,-2157 }, { 231,-2157 }, { 232,-2157 }, { 233,-2157 }, { 234,-2157 },
  { 235,-2157 }, { 236,-2157 }, { 237,-2157 }, { 238,-2157 }, { 239,-2157 },
  { 240,-2157 }, { 241,-2157 }, { 242,-2157 }, { 243,-2157 }, { 244,-2157 },
-
  { 245,-2157 }, { 246,-2157 }, { 247,-2157 }, { 248,-2157 }, { 249,-2157 },
  { 250,-2157 }, { 251,-2157 }, { 252,-2157 }, { 253,-2157 }, { 254,-2157 },
- { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,9619 }, {   1,-2415 },
+ { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,10765 }, {   1,-2415 },
  {   2,-2415 }, {   3,-2415 }, {   4,-2415 }, {   5,-2415 }, {   6,-2415 },
  {   7,-2415 }, {   8,-2415 }, {   9,-2440 }, {  10,-2440 }, {  11,-2415 },
+
  {  12,-2415 }, {  13,-2440 }, {  14,-2415 }, {  15,-2415 }, {  16,-2415 },
  {  17,-2415 }, {  18,-2415 }, {  19,-2415 }, {  20,-2415 }, {  21,-2415 },
  {  22,-2415 }, {  23,-2415 }, {  24,-2415 }, {  25,-2415 }, {  26,-2415 },
  {  27,-2415 }, {  28,-2415 }, {  29,-2415 }, {  30,-2415 }, {  31,-2415 },
  {  32,-2440 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-2415 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-2440 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-2415 }, {  46,-2440 },
  {  47,-2440 }, {  48,-2415 }, {  49,-2415 }, {  50,-2415 }, {  51,-2415 },
  {  52,-2415 }, {  53,-2415 }, {  54,-2415 }, {  55,-2415 }, {  56,-2415 },
  {  57,-2415 }, {  58,-2415 }, {   0,   0 }, {   0,   0 }, {  61,-2440 },
+
  {   0,   0 }, {  63,-2415 }, {   0,   0 }, {  65,-2415 }, {  66,-2415 },
  {  67,-2415 }, {  68,-2415 }, {  69,-2415 }, {  70,-2415 }, {  71,-2415 },
  {  72,-2415 }, {  73,-2415 }, {  74,-2415 }, {  75,-2415 }, {  76,-2415 },
  {  77,-2415 }, {  78,-2415 }, {  79,-2415 }, {  80,-2415 }, {  81,-2415 },
  {  82,-2415 }, {  83,-2415 }, {  84,-2415 }, {  85,-2415 }, {  86,-2415 },
-
  {  87,-2415 }, {  88,-2415 }, {  89,-2415 }, {  90,-2415 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-2415 }, {   0,   0 },
  {  97,-2415 }, {  98,-2415 }, {  99,-2415 }, { 100,-2415 }, { 101,-2415 },
  { 102,-2415 }, { 103,-2415 }, { 104,-2415 }, { 105,-2415 }, { 106,-2415 },
  { 107,-2415 }, { 108,3229 }, { 109,-2415 }, { 110,-2415 }, { 111,-2415 },
+
  { 112,-2415 }, { 113,-2415 }, { 114,-2415 }, { 115,-2415 }, { 116,-2415 },
  { 117,-2415 }, { 118,-2415 }, { 119,-2415 }, { 120,-2415 }, { 121,-2415 },
  { 122,-2415 }, {   0,   0 }, { 124,-2440 }, { 125,-2440 }, { 126,-2440 },
  { 127,-2415 }, { 128,-2415 }, { 129,-2415 }, { 130,-2415 }, { 131,-2415 },
  { 132,-2415 }, { 133,-2415 }, { 134,-2415 }, { 135,-2415 }, { 136,-2415 },
-
  { 137,-2415 }, { 138,-2415 }, { 139,-2415 }, { 140,-2415 }, { 141,-2415 },
  { 142,-2415 }, { 143,-2415 }, { 144,-2415 }, { 145,-2415 }, { 146,-2415 },
  { 147,-2415 }, { 148,-2415 }, { 149,-2415 }, { 150,-2415 }, { 151,-2415 },
  { 152,-2415 }, { 153,-2415 }, { 154,-2415 }, { 155,-2415 }, { 156,-2415 },
  { 157,-2415 }, { 158,-2415 }, { 159,-2415 }, { 160,-2415 }, { 161,-2415 },
+
  { 162,-2415 }, { 163,-2415 }, { 164,-2415 }, { 165,-2415 }, { 166,-2415 },
  { 167,-2415 }, { 168,-2415 }, { 169,-2415 }, { 170,-2415 }, { 171,-2415 },
  { 172,-2415 }, { 173,-2415 }, { 174,-2415 }, { 175,-2415 }, { 176,-2415 },
  { 177,-2415 }, { 178,-2415 }, { 179,-2415 }, { 180,-2415 }, { 181,-2415 },
  { 182,-2415 }, { 183,-2415 }, { 184,-2415 }, { 185,-2415 }, { 186,-2415 },
-
  { 187,-2415 }, { 188,-2415 }, { 189,-2415 }, { 190,-2415 }, { 191,-2415 },
  { 192,-2415 }, { 193,-2415 }, { 194,-2415 }, { 195,-2415 }, { 196,-2415 },
  { 197,-2415 }, { 198,-2415 }, { 199,-2415 }, { 200,-2415 }, { 201,-2415 },
  { 202,-2415 }, { 203,-2415 }, { 204,-2415 }, { 205,-2415 }, { 206,-2415 },
  { 207,-2415 }, { 208,-2415 }, { 209,-2415 }, { 210,-2415 }, { 211,-2415 },
+
  { 212,-2415 }, { 213,-2415 }, { 214,-2415 }, { 215,-2415 }, { 216,-2415 },
  { 217,-2415 }, { 218,-2415 }, { 219,-2415 }, { 220,-2415 }, { 221,-2415 },
  { 222,-2415 }, { 223,-2415 }, { 224,-2415 }, { 225,-2415 }, { 226,-2415 },
  { 227,-2415 }, { 228,-2415 }, { 229,-2415 }, { 230,-2415 }, { 231,-2415 },
  { 232,-2415 }, { 233,-2415 }, { 234,-2415 }, { 235,-2415 }, { 236,-2415 },
-
  { 237,-2415 }, { 238,-2415 }, { 239,-2415 }, { 240,-2415 }, { 241,-2415 },
  { 242,-2415 }, { 243,-2415 }, { 244,-2415 }, { 245,-2415 }, { 246,-2415 },
  { 247,-2415 }, { 248,-2415 }, { 249,-2415 }, { 250,-2415 }, { 251,-2415 },
  { 252,-2415 }, { 253,-2415 }, { 254,-2415 }, { 255,-2415 }, { 256,-2415 },
- {   0,   0 }, {   0,9361 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
+ {   0,   0 }, {   0,10507 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
+
  {   4,-2673 }, {   5,-2673 }, {   6,-2673 }, {   7,-2673 }, {   8,-2673 },
  {   9,-2698 }, {  10,-2698 }, {  11,-2673 }, {  12,-2673 }, {  13,-2698 },
  {  14,-2673 }, {  15,-2673 }, {  16,-2673 }, {  17,-2673 }, {  18,-2673 },
  {  19,-2673 }, {  20,-2673 }, {  21,-2673 }, {  22,-2673 }, {  23,-2673 },
  {  24,-2673 }, {  25,-2673 }, {  26,-2673 }, {  27,-2673 }, {  28,-2673 },
-
  {  29,-2673 }, {  30,-2673 }, {  31,-2673 }, {  32,-2698 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  36,-2673 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  41,-2698 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  45,-2673 }, {  46,-2698 }, {  47,-2698 }, {  48,-2673 },
  {  49,-2673 }, {  50,-2673 }, {  51,-2673 }, {  52,-2673 }, {  53,-2673 },
+
  {  54,-2673 }, {  55,-2673 }, {  56,-2673 }, {  57,-2673 }, {  58,-2673 },
  {   0,   0 }, {   0,   0 }, {  61,-2698 }, {   0,   0 }, {  63,-2673 },
  {   0,   0 }, {  65,-2673 }, {  66,-2673 }, {  67,-2673 }, {  68,-2673 },
  {  69,-2673 }, {  70,-2673 }, {  71,-2673 }, {  72,-2673 }, {  73,-2673 },
  {  74,-2673 }, {  75,-2673 }, {  76,-2673 }, {  77,-2673 }, {  78,-2673 },
-
  {  79,-2673 }, {  80,-2673 }, {  81,-2673 }, {  82,-2673 }, {  83,-2673 },
  {  84,-2673 }, {  85,-2673 }, {  86,-2673 }, {  87,-2673 }, {  88,-2673 },
  {  89,-2673 }, {  90,-2673 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  95,-2673 }, {   0,   0 }, {  97,-2673 }, {  98,-2673 },
  {  99,-2673 }, { 100,-2673 }, { 101,-2673 }, { 102,-2673 }, { 103,-2673 },
+
  { 104,-2673 }, { 105,-2673 }, { 106,-2673 }, { 107,-2673 }, { 108,3229 },
  { 109,-2673 }, { 110,-2673 }, { 111,-2673 }, { 112,-2673 }, { 113,-2673 },
  { 114,-2673 }, { 115,-2673 }, { 116,-2673 }, { 117,-2673 }, { 118,-2673 },
  { 119,-2673 }, { 120,-2673 }, { 121,-2673 }, { 122,-2673 }, {   0,   0 },
  { 124,-2698 }, { 125,-2698 }, { 126,-2698 }, { 127,-2673 }, { 128,-2673 },
-
  { 129,-2673 }, { 130,-2673 }, { 131,-2673 }, { 132,-2673 }, { 133,-2673 },
  { 134,-2673 }, { 135,-2673 }, { 136,-2673 }, { 137,-2673 }, { 138,-2673 },
  { 139,-2673 }, { 140,-2673 }, { 141,-2673 }, { 142,-2673 }, { 143,-2673 },
  { 144,-2673 }, { 145,-2673 }, { 146,-2673 }, { 147,-2673 }, { 148,-2673 },
  { 149,-2673 }, { 150,-2673 }, { 151,-2673 }, { 152,-2673 }, { 153,-2673 },
+
  { 154,-2673 }, { 155,-2673 }, { 156,-2673 }, { 157,-2673 }, { 158,-2673 },
  { 159,-2673 }, { 160,-2673 }, { 161,-2673 }, { 162,-2673 }, { 163,-2673 },
  { 164,-2673 }, { 165,-2673 }, { 166,-2673 }, { 167,-2673 }, { 168,-2673 },
  { 169,-2673 }, { 170,-2673 }, { 171,-2673 }, { 172,-2673 }, { 173,-2673 },
  { 174,-2673 }, { 175,-2673 }, { 176,-2673 }, { 177,-2673 }, { 178,-2673 },
-
  { 179,-2673 }, { 180,-2673 }, { 181,-2673 }, { 182,-2673 }, { 183,-2673 },
  { 184,-2673 }, { 185,-2673 }, { 186,-2673 }, { 187,-2673 }, { 188,-2673 },
  { 189,-2673 }, { 190,-2673 }, { 191,-2673 }, { 192,-2673 }, { 193,-2673 },
  { 194,-2673 }, { 195,-2673 }, { 196,-2673 }, { 197,-2673 }, { 198,-2673 },
  { 199,-2673 }, { 200,-2673 }, { 201,-2673 }, { 202,-2673 }, { 203,-2673 },
+
  { 204,-2673 }, { 205,-2673 }, { 206,-2673 }, { 207,-2673 }, { 208,-2673 },
  { 209,-2673 }, { 210,-2673 }, { 211,-2673 }, { 212,-2673 }, { 213,-2673 },
  { 214,-2673 }, { 215,-2673 }, { 216,-2673 }, { 217,-2673 }, { 218,-2673 },
  { 219,-2673 }, { 220,-2673 }, { 221,-2673 }, { 222,-2673 }, { 223,-2673 },
  { 224,-2673 }, { 225,-2673 }, { 226,-2673 }, { 227,-2673 }, { 228,-2673 },
-
  { 229,-2673 }, { 230,-2673 }, { 231,-2673 }, { 232,-2673 }, { 233,-2673 },
  { 234,-2673 }, { 235,-2673 }, { 236,-2673 }, { 237,-2673 }, { 238,-2673 },
  { 239,-2673 }, { 240,-2673 }, { 241,-2673 }, { 242,-2673 }, { 243,-2673 },
  { 244,-2673 }, { 245,-2673 }, { 246,-2673 }, { 247,-2673 }, { 248,-2673 },
  { 249,-2673 }, { 250,-2673 }, { 251,-2673 }, { 252,-2673 }, { 253,-2673 },
- { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,9103 },
+
+ { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,10249 },
  {   1,-2931 }, {   2,-2931 }, {   3,-2931 }, {   4,-2931 }, {   5,-2931 },
  {   6,-2931 }, {   7,-2931 }, {   8,-2931 }, {   9,-2956 }, {  10,-2956 },
  {  11,-2931 }, {  12,-2931 }, {  13,-2956 }, {  14,-2931 }, {  15,-2931 },
  {  16,-2931 }, {  17,-2931 }, {  18,-2931 }, {  19,-2931 }, {  20,-2931 },
-
  {  21,-2931 }, {  22,-2931 }, {  23,-2931 }, {  24,-2931 }, {  25,-2931 },
  {  26,-2931 }, {  27,-2931 }, {  28,-2931 }, {  29,-2931 }, {  30,-2931 },
  {  31,-2931 }, {  32,-2956 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  36,-2931 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  41,-2956 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-2931 },
+
  {  46,-2956 }, {  47,-2956 }, {  48,-2931 }, {  49,-2931 }, {  50,-2931 },
  {  51,-2931 }, {  52,-2931 }, {  53,-2931 }, {  54,-2931 }, {  55,-2931 },
  {  56,-2931 }, {  57,-2931 }, {  58,-2931 }, {   0,   0 }, {   0,   0 },
  {  61,-2956 }, {   0,   0 }, {  63,-2931 }, {   0,   0 }, {  65,-2931 },
  {  66,-2931 }, {  67,-2931 }, {  68,-2931 }, {  69,-2931 }, {  70,-2931 },
-
  {  71,-2931 }, {  72,-2931 }, {  73,-2931 }, {  74,-2931 }, {  75,-2931 },
  {  76,-2931 }, {  77,-2931 }, {  78,-2931 }, {  79,-2931 }, {  80,-2931 },
  {  81,-2931 }, {  82,-2931 }, {  83,-2931 }, {  84,-2931 }, {  85,-2931 },
  {  86,-2931 }, {  87,-2931 }, {  88,-2931 }, {  89,-2931 }, {  90,-2931 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-2931 },
+
  {   0,   0 }, {  97,-2931 }, {  98,-2931 }, {  99,-2931 }, { 100,-2931 },
  { 101,-2931 }, { 102,-2931 }, { 103,-2931 }, { 104,-2931 }, { 105,-2931 },
  { 106,-2931 }, { 107,-2931 }, { 108,-2931 }, { 109,-2931 }, { 110,-2931 },
  { 111,-2931 }, { 112,-2931 }, { 113,-2931 }, { 114,-2931 }, { 115,-2931 },
  { 116,-2931 }, { 117,3229 }, { 118,-2931 }, { 119,-2931 }, { 120,-2931 },
-
  { 121,-2931 }, { 122,-2931 }, {   0,   0 }, { 124,-2956 }, { 125,-2956 },
  { 126,-2956 }, { 127,-2931 }, { 128,-2931 }, { 129,-2931 }, { 130,-2931 },
  { 131,-2931 }, { 132,-2931 }, { 133,-2931 }, { 134,-2931 }, { 135,-2931 },
  { 136,-2931 }, { 137,-2931 }, { 138,-2931 }, { 139,-2931 }, { 140,-2931 },
  { 141,-2931 }, { 142,-2931 }, { 143,-2931 }, { 144,-2931 }, { 145,-2931 },
+
  { 146,-2931 }, { 147,-2931 }, { 148,-2931 }, { 149,-2931 }, { 150,-2931 },
  { 151,-2931 }, { 152,-2931 }, { 153,-2931 }, { 154,-2931 }, { 155,-2931 },
  { 156,-2931 }, { 157,-2931 }, { 158,-2931 }, { 159,-2931 }, { 160,-2931 },
  { 161,-2931 }, { 162,-2931 }, { 163,-2931 }, { 164,-2931 }, { 165,-2931 },
  { 166,-2931 }, { 167,-2931 }, { 168,-2931 }, { 169,-2931 }, { 170,-2931 },
-
  { 171,-2931 }, { 172,-2931 }, { 173,-2931 }, { 174,-2931 }, { 175,-2931 },
  { 176,-2931 }, { 177,-2931 }, { 178,-2931 }, { 179,-2931 }, { 180,-2931 },
  { 181,-2931 }, { 182,-2931 }, { 183,-2931 }, { 184,-2931 }, { 185,-2931 },
  { 186,-2931 }, { 187,-2931 }, { 188,-2931 }, { 189,-2931 }, { 190,-2931 },
  { 191,-2931 }, { 192,-2931 }, { 193,-2931 }, { 194,-2931 }, { 195,-2931 },
+
  { 196,-2931 }, { 197,-2931 }, { 198,-2931 }, { 199,-2931 }, { 200,-2931 },
  { 201,-2931 }, { 202,-2931 }, { 203,-2931 }, { 204,-2931 }, { 205,-2931 },
  { 206,-2931 }, { 207,-2931 }, { 208,-2931 }, { 209,-2931 }, { 210,-2931 },
  { 211,-2931 }, { 212,-2931 }, { 213,-2931 }, { 214,-2931 }, { 215,-2931 },
  { 216,-2931 }, { 217,-2931 }, { 218,-2931 }, { 219,-2931 }, { 220,-2931 },
-
  { 221,-2931 }, { 222,-2931 }, { 223,-2931 }, { 224,-2931 }, { 225,-2931 },
  { 226,-2931 }, { 227,-2931 }, { 228,-2931 }, { 229,-2931 }, { 230,-2931 },
  { 231,-2931 }, { 232,-2931 }, { 233,-2931 }, { 234,-2931 }, { 235,-2931 },
  { 236,-2931 }, { 237,-2931 }, { 238,-2931 }, { 239,-2931 }, { 240,-2931 },
  { 241,-2931 }, { 242,-2931 }, { 243,-2931 }, { 244,-2931 }, { 245,-2931 },
+
  { 246,-2931 }, { 247,-2931 }, { 248,-2931 }, { 249,-2931 }, { 250,-2931 },
  { 251,-2931 }, { 252,-2931 }, { 253,-2931 }, { 254,-2931 }, { 255,-2931 },
- { 256,-2931 }, {   0,   0 }, {   0,8845 }, {   1,-3189 }, {   2,-3189 },
+ { 256,-2931 }, {   0,   0 }, {   0,9991 }, {   1,-3189 }, {   2,-3189 },
  {   3,-3189 }, {   4,-3189 }, {   5,-3189 }, {   6,-3189 }, {   7,-3189 },
  {   8,-3189 }, {   9,-3214 }, {  10,-3214 }, {  11,-3189 }, {  12,-3189 },
-
  {  13,-3214 }, {  14,-3189 }, {  15,-3189 }, {  16,-3189 }, {  17,-3189 },
  {  18,-3189 }, {  19,-3189 }, {  20,-3189 }, {  21,-3189 }, {  22,-3189 },
  {  23,-3189 }, {  24,-3189 }, {  25,-3189 }, {  26,-3189 }, {  27,-3189 },
  {  28,-3189 }, {  29,-3189 }, {  30,-3189 }, {  31,-3189 }, {  32,-3214 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-3189 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-3214 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  45,-3189 }, {  46,-3214 }, {  47,-3214 },
  {  48,-3189 }, {  49,-3189 }, {  50,-3189 }, {  51,-3189 }, {  52,-3189 },
  {  53,-3189 }, {  54,-3189 }, {  55,-3189 }, {  56,-3189 }, {  57,-3189 },
  {  58,-3189 }, {   0,   0 }, {   0,   0 }, {  61,-3214 }, {   0,   0 },
-
  {  63,-3189 }, {   0,   0 }, {  65,-3189 }, {  66,-3189 }, {  67,-3189 },
  {  68,-3189 }, {  69,-3189 }, {  70,-3189 }, {  71,-3189 }, {  72,-3189 },
  {  73,-3189 }, {  74,-3189 }, {  75,-3189 }, {  76,-3189 }, {  77,-3189 },
  {  78,-3189 }, {  79,-3189 }, {  80,-3189 }, {  81,-3189 }, {  82,-3189 },
  {  83,-3189 }, {  84,-3189 }, {  85,-3189 }, {  86,-3189 }, {  87,-3189 },
+
  {  88,-3189 }, {  89,-3189 }, {  90,-3189 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  95,-3189 }, {   0,   0 }, {  97,-3189 },
  {  98,-3189 }, {  99,-3189 }, { 100,3229 }, { 101,-3189 }, { 102,-3189 },
  { 103,-3189 }, { 104,-3189 }, { 105,-3189 }, { 106,-3189 }, { 107,-3189 },
  { 108,-3189 }, { 109,-3189 }, { 110,-3189 }, { 111,-3189 }, { 112,-3189 },
-
  { 113,-3189 }, { 114,-3189 }, { 115,-3189 }, { 116,-3189 }, { 117,-3189 },
  { 118,-3189 }, { 119,-3189 }, { 120,-3189 }, { 121,-3189 }, { 122,-3189 },
  {   0,   0 }, { 124,-3214 }, { 125,-3214 }, { 126,-3214 }, { 127,-3189 },
  { 128,-3189 }, { 129,-3189 }, { 130,-3189 }, { 131,-3189 }, { 132,-3189 },
  { 133,-3189 }, { 134,-3189 }, { 135,-3189 }, { 136,-3189 }, { 137,-3189 },
+
  { 138,-3189 }, { 139,-3189 }, { 140,-3189 }, { 141,-3189 }, { 142,-3189 },
  { 143,-3189 }, { 144,-3189 }, { 145,-3189 }, { 146,-3189 }, { 147,-3189 },
  { 148,-3189 }, { 149,-3189 }, { 150,-3189 }, { 151,-3189 }, { 152,-3189 },
  { 153,-3189 }, { 154,-3189 }, { 155,-3189 }, { 156,-3189 }, { 157,-3189 },
  { 158,-3189 }, { 159,-3189 }, { 160,-3189 }, { 161,-3189 }, { 162,-3189 },
-
  { 163,-3189 }, { 164,-3189 }, { 165,-3189 }, { 166,-3189 }, { 167,-3189 },
  { 168,-3189 }, { 169,-3189 }, { 170,-3189 }, { 171,-3189 }, { 172,-3189 },
  { 173,-3189 }, { 174,-3189 }, { 175,-3189 }, { 176,-3189 }, { 177,-3189 },
  { 178,-3189 }, { 179,-3189 }, { 180,-3189 }, { 181,-3189 }, { 182,-3189 },
  { 183,-3189 }, { 184,-3189 }, { 185,-3189 }, { 186,-3189 }, { 187,-3189 },
+
  { 188,-3189 }, { 189,-3189 }, { 190,-3189 }, { 191,-3189 }, { 192,-3189 },
  { 193,-3189 }, { 194,-3189 }, { 195,-3189 }, { 196,-3189 }, { 197,-3189 },
  { 198,-3189 }, { 199,-3189 }, { 200,-3189 }, { 201,-3189 }, { 202,-3189 },
  { 203,-3189 }, { 204,-3189 }, { 205,-3189 }, { 206,-3189 }, { 207,-3189 },
  { 208,-3189 }, { 209,-3189 }, { 210,-3189 }, { 211,-3189 }, { 212,-3189 },
-
  { 213,-3189 }, { 214,-3189 }, { 215,-3189 }, { 216,-3189 }, { 217,-3189 },
  { 218,-3189 }, { 219,-3189 }, { 220,-3189 }, { 221,-3189 }, { 222,-3189 },
  { 223,-3189 }, { 224,-3189 }, { 225,-3189 }, { 226,-3189 }, { 227,-3189 },
  { 228,-3189 }, { 229,-3189 }, { 230,-3189 }, { 231,-3189 }, { 232,-3189 },
  { 233,-3189 }, { 234,-3189 }, { 235,-3189 }, { 236,-3189 }, { 237,-3189 },
+
  { 238,-3189 }, { 239,-3189 }, { 240,-3189 }, { 241,-3189 }, { 242,-3189 },
  { 243,-3189 }, { 244,-3189 }, { 245,-3189 }, { 246,-3189 }, { 247,-3189 },
  { 248,-3189 }, { 249,-3189 }, { 250,-3189 }, { 251,-3189 }, { 252,-3189 },
- { 253,-3189 }, { 254,-3189 }, { 255,-3189 }, { 256,-3189 }, {   0,  30 },
- {   0,8587 }, {   0,  37 }, {   0,8585 }, {   0,   0 }, {   0,8583 },
-
- {   0,   0 }, {   0,8581 }, {   0,   0 }, {   0,8579 }, {   9,3229 },
- {  10,3229 }, {   0,  13 }, {   0,8575 }, {  13,3229 }, {   0,   0 },
+ { 253,-3189 }, { 254,-3189 }, { 255,-3189 }, { 256,-3189 }, {   0,  31 },
+ {   0,9733 }, {   0,  38 }, {   0,9731 }, {   0,   0 }, {   0,9729 },
+ {   0,   0 }, {   0,9727 }, {   0,   0 }, {   0,9725 }, {   9,3229 },
+ {  10,3229 }, {   0,  13 }, {   0,9721 }, {  13,3229 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {  32,3229 }, {  33,1813 }, {   0,   0 },
  {  35,1815 }, {   0,   0 }, {   0,   0 }, {  38,1817 }, {   0,   0 },
- {   0,   0 }, {  33,3242 }, {  42,1819 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  33,3365 }, {  42,1819 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  47,1823 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  62,1826 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  94,3231 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, { 101,3233 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  { 115,3235 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,3237 }, {   0,   0 },
  {   0,   0 }, { 126,3244 }, { 125,3239 }, {   0,   0 }, { 125,3242 },
- {   0,   0 }, { 125,3242 }, {   0,   0 }, {   0,   0 }, { 126,3244 },
- {   0,   0 }, {   0,8451 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+
+ {   0,   0 }, { 125,3242 }, {   0,   0 }, {   0,   0 }, { 126,3242 },
+ {   0,   0 }, {   0,9597 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
-
  {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
  {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
  {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
  {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
  {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
+
  {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
  {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
  {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
  {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
  {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
-
  {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
  {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
  {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
  {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
  {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 }, {  93,   0 },
+
  {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
  {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
  { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
  { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
  { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
-
  { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 },
  { 124,   0 }, { 125, 258 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
  { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
  { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
  { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
+
  { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
  { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
  { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
  { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
  { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
-
  { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
  { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
  { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
  { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
  { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
+
  { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
  { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
  { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
  { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
  { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
-
  { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
  { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
  { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
  { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
  { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
+
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,8193 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,9339 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
-
  {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
  {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 },
  {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 },
  {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 },
  {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 },
+
  {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 },
  {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-258 },
  {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 },
  {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 },
  {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 },
-
  {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 },
  {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 },
  {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 },
  {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 },
  {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 },
+
  {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 },
  {  91,-258 }, {  92,-258 }, {  93,-258 }, {  94,-258 }, {  95,-258 },
  {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 },
  { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 },
  { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 },
-
  { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 },
  { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 },
  { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-382 },
  { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 },
  { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 },
+
  { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 },
  { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 },
  { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 },
  { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 },
  { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 },
-
  { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 },
  { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 },
  { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 },
  { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 },
  { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 },
+
  { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 },
  { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 },
  { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 },
  { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 },
  { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 },
-
  { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 },
  { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 },
  { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 },
  { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 },
  { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 },
+
  { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 },
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,  10 }, {   0,7935 }, {   1,   0 }, {   2,   0 },
-
+ { 256,-258 }, {   0,  10 }, {   0,9081 }, {   1,   0 }, {   2,   0 },
  {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
  {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
  {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
  {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 },
  {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
+
  {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 },
  {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 },
  {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 },
  {  43,   0 }, {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 },
  {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
-
  {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
  {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 },
  {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
  {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 },
  {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
+
  {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
  {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
  {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 },
  {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 },
  {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
-
  { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
  { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
  { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
  { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
  {   0,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 },
+
  { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
  { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
  { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 },
  { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 },
  { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 },
-
  { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 },
  { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 },
  { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 },
  { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 },
  { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 },
+
  { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 },
  { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 },
  { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 },
  { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 },
  { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 },
-
  { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 },
  { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 },
  { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 },
  { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 },
  { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 },
+
  { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 },
  { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 },
  { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
  { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
  { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
-
- { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   0 }, {   0,7678 },
- {   0,   0 }, {   0,7676 }, {   0,   0 }, {   0,7674 }, {   0,   5 },
- {   0,7672 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   0 }, {   0,8824 },
+ {   0,   0 }, {   0,8822 }, {   0,   0 }, {   0,8820 }, {   0,   5 },
+ {   0,8818 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,  48 }, {   0,7581 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  49 }, {   0,8727 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 123,2347 }, {   0,   0 }, { 123,2348 },
- {   0,   0 }, { 123,2350 }, {   0,   4 }, {   0,7549 }, {   1,2350 },
- {   2,2350 }, {   3,2350 }, {   4,2350 }, {   5,2350 }, {   6,2350 },
- {   7,2350 }, {   8,2350 }, {   9,2350 }, {  10,2227 }, {  11,2350 },
- {  12,2350 }, {  13,2227 }, {  14,2350 }, {  15,2350 }, {  16,2350 },
 
- {  17,2350 }, {  18,2350 }, {  19,2350 }, {  20,2350 }, {  21,2350 },
- {  22,2350 }, {  23,2350 }, {  24,2350 }, {  25,2350 }, {  26,2350 },
- {  27,2350 }, {  28,2350 }, {  29,2350 }, {  30,2350 }, {  31,2350 },
- {  32,2350 }, {  33,2350 }, {  34,2350 }, {  35,2350 }, {  36,2350 },
- {  37,2350 }, {  38,2350 }, {  39,2350 }, {  40,2350 }, {  41,2350 },
- {  42,2350 }, {  43,2350 }, {  44,2350 }, {  45,2350 }, {  46,2350 },
- {  47,2350 }, {  48,2350 }, {  49,2350 }, {  50,2350 }, {  51,2350 },
- {  52,2350 }, {  53,2350 }, {  54,2350 }, {  55,2350 }, {  56,2350 },
- {  57,2350 }, {  58,2350 }, {  59,2350 }, {  60,2350 }, {  61,2350 },
- {  62,2350 }, {  63,2350 }, {  64,2350 }, {  65,2350 }, {  66,2350 },
+ {   0,   0 }, {   0,   0 }, { 123,2722 }, {   0,   0 }, { 123,2722 },
+ {   0,   0 }, { 123,2722 }, {   0,   4 }, {   0,8695 }, {   1,2722 },
+ {   2,2722 }, {   3,2722 }, {   4,2722 }, {   5,2722 }, {   6,2722 },
+ {   7,2722 }, {   8,2722 }, {   9,2722 }, {  10,2599 }, {  11,2722 },
+ {  12,2722 }, {  13,2599 }, {  14,2722 }, {  15,2722 }, {  16,2722 },
+ {  17,2722 }, {  18,2722 }, {  19,2722 }, {  20,2722 }, {  21,2722 },
+ {  22,2722 }, {  23,2722 }, {  24,2722 }, {  25,2722 }, {  26,2722 },
+ {  27,2722 }, {  28,2722 }, {  29,2722 }, {  30,2722 }, {  31,2722 },
+ {  32,2722 }, {  33,2722 }, {  34,2722 }, {  35,2722 }, {  36,2722 },
+ {  37,2722 }, {  38,2722 }, {  39,2722 }, {  40,2722 }, {  41,2722 },
 
- {  67,2350 }, {  68,2350 }, {  69,2350 }, {  70,2350 }, {  71,2350 },
- {  72,2350 }, {  73,2350 }, {  74,2350 }, {  75,2350 }, {  76,2350 },
- {  77,2350 }, {  78,2350 }, {  79,2350 }, {  80,2350 }, {  81,2350 },
- {  82,2350 }, {  83,2350 }, {  84,2350 }, {  85,2350 }, {  86,2350 },
- {  87,2350 }, {  88,2350 }, {  89,2350 }, {  90,2350 }, {  91,2350 },
- { 124,2263 }, {  93,2350 }, {  94,2350 }, {  95,2350 }, {  96,2350 },
- {  97,2350 }, {  98,2350 }, {  99,2350 }, { 100,2350 }, { 101,2350 },
- { 102,2350 }, { 103,2350 }, { 104,2350 }, { 105,2350 }, { 106,2350 },
- { 107,2350 }, { 108,2350 }, { 109,2350 }, { 110,2350 }, { 111,2350 },
- { 112,2350 }, { 113,2350 }, { 114,2350 }, { 115,2350 }, { 116,2350 },
+ {  42,2722 }, {  43,2722 }, {  44,2722 }, {  45,2722 }, {  46,2722 },
+ {  47,2722 }, {  48,2722 }, {  49,2722 }, {  50,2722 }, {  51,2722 },
+ {  52,2722 }, {  53,2722 }, {  54,2722 }, {  55,2722 }, {  56,2722 },
+ {  57,2722 }, {  58,2722 }, {  59,2722 }, {  60,2722 }, {  61,2722 },
+ {  62,2722 }, {  63,2722 }, {  64,2722 }, {  65,2722 }, {  66,2722 },
+ {  67,2722 }, {  68,2722 }, {  69,2722 }, {  70,2722 }, {  71,2722 },
+ {  72,2722 }, {  73,2722 }, {  74,2722 }, {  75,2722 }, {  76,2722 },
+ {  77,2722 }, {  78,2722 }, {  79,2722 }, {  80,2722 }, {  81,2722 },
+ {  82,2722 }, {  83,2722 }, {  84,2722 }, {  85,2722 }, {  86,2722 },
+ {  87,2722 }, {  88,2722 }, {  89,2722 }, {  90,2722 }, {  91,2722 },
 
- { 117,2350 }, { 118,2350 }, { 119,2350 }, { 120,2350 }, { 121,2350 },
- { 122,2350 }, { 123,2607 }, { 124,2350 }, { 125,2350 }, { 126,2350 },
- { 127,2350 }, { 128,2350 }, { 129,2350 }, { 130,2350 }, { 131,2350 },
- { 132,2350 }, { 133,2350 }, { 134,2350 }, { 135,2350 }, { 136,2350 },
- { 137,2350 }, { 138,2350 }, { 139,2350 }, { 140,2350 }, { 141,2350 },
- { 142,2350 }, { 143,2350 }, { 144,2350 }, { 145,2350 }, { 146,2350 },
- { 147,2350 }, { 148,2350 }, { 149,2350 }, { 150,2350 }, { 151,2350 },
- { 152,2350 }, { 153,2350 }, { 154,2350 }, { 155,2350 }, { 156,2350 },
- { 157,2350 }, { 158,2350 }, { 159,2350 }, { 160,2350 }, { 161,2350 },
- { 162,2350 }, { 163,2350 }, { 164,2350 }, { 165,2350 }, { 166,2350 },
+ { 124,2635 }, {  93,2722 }, {  94,2722 }, {  95,2722 }, {  96,2722 },
+ {  97,2722 }, {  98,2722 }, {  99,2722 }, { 100,2722 }, { 101,2722 },
+ { 102,2722 }, { 103,2722 }, { 104,2722 }, { 105,2722 }, { 106,2722 },
+ { 107,2722 }, { 108,2722 }, { 109,2722 }, { 110,2722 }, { 111,2722 },
+ { 112,2722 }, { 113,2722 }, { 114,2722 }, { 115,2722 }, { 116,2722 },
+ { 117,2722 }, { 118,2722 }, { 119,2722 }, { 120,2722 }, { 121,2722 },
+ { 122,2722 }, { 123,2979 }, { 124,2722 }, { 125,2722 }, { 126,2722 },
+ { 127,2722 }, { 128,2722 }, { 129,2722 }, { 130,2722 }, { 131,2722 },
+ { 132,2722 }, { 133,2722 }, { 134,2722 }, { 135,2722 }, { 136,2722 },
+ { 137,2722 }, { 138,2722 }, { 139,2722 }, { 140,2722 }, { 141,2722 },
 
- { 167,2350 }, { 168,2350 }, { 169,2350 }, { 170,2350 }, { 171,2350 },
- { 172,2350 }, { 173,2350 }, { 174,2350 }, { 175,2350 }, { 176,2350 },
- { 177,2350 }, { 178,2350 }, { 179,2350 }, { 180,2350 }, { 181,2350 },
- { 182,2350 }, { 183,2350 }, { 184,2350 }, { 185,2350 }, { 186,2350 },
- { 187,2350 }, { 188,2350 }, { 189,2350 }, { 190,2350 }, { 191,2350 },
- { 192,2350 }, { 193,2350 }, { 194,2350 }, { 195,2350 }, { 196,2350 },
- { 197,2350 }, { 198,2350 }, { 199,2350 }, { 200,2350 }, { 201,2350 },
- { 202,2350 }, { 203,2350 }, { 204,2350 }, { 205,2350 }, { 206,2350 },
- { 207,2350 }, { 208,2350 }, { 209,2350 }, { 210,2350 }, { 211,2350 },
- { 212,2350 }, { 213,2350 }, { 214,2350 }, { 215,2350 }, { 216,2350 },
+ { 142,2722 }, { 143,2722 }, { 144,2722 }, { 145,2722 }, { 146,2722 },
+ { 147,2722 }, { 148,2722 }, { 149,2722 }, { 150,2722 }, { 151,2722 },
+ { 152,2722 }, { 153,2722 }, { 154,2722 }, { 155,2722 }, { 156,2722 },
+ { 157,2722 }, { 158,2722 }, { 159,2722 }, { 160,2722 }, { 161,2722 },
+ { 162,2722 }, { 163,2722 }, { 164,2722 }, { 165,2722 }, { 166,2722 },
+ { 167,2722 }, { 168,2722 }, { 169,2722 }, { 170,2722 }, { 171,2722 },
+ { 172,2722 }, { 173,2722 }, { 174,2722 }, { 175,2722 }, { 176,2722 },
+ { 177,2722 }, { 178,2722 }, { 179,2722 }, { 180,2722 }, { 181,2722 },
+ { 182,2722 }, { 183,2722 }, { 184,2722 }, { 185,2722 }, { 186,2722 },
+ { 187,2722 }, { 188,2722 }, { 189,2722 }, { 190,2722 }, { 191,2722 },
 
- { 217,2350 }, { 218,2350 }, { 219,2350 }, { 220,2350 }, { 221,2350 },
- { 222,2350 }, { 223,2350 }, { 224,2350 }, { 225,2350 }, { 226,2350 },
- { 227,2350 }, { 228,2350 }, { 229,2350 }, { 230,2350 }, { 231,2350 },
- { 232,2350 }, { 233,2350 }, { 234,2350 }, { 235,2350 }, { 236,2350 },
- { 237,2350 }, { 238,2350 }, { 239,2350 }, { 240,2350 }, { 241,2350 },
- { 242,2350 }, { 243,2350 }, { 244,2350 }, { 245,2350 }, { 246,2350 },
- { 247,2350 }, { 248,2350 }, { 249,2350 }, { 250,2350 }, { 251,2350 },
- { 252,2350 }, { 253,2350 }, { 254,2350 }, { 255,2350 }, {   0,  38 },
- {   0,7292 }, {   1,-4450 }, {   2,-4450 }, {   3,-4450 }, {   4,-4450 },
- {   5,-4450 }, {   6,-4450 }, {   7,-4450 }, {   8,-4450 }, {   9,-4450 },
+ { 192,2722 }, { 193,2722 }, { 194,2722 }, { 195,2722 }, { 196,2722 },
+ { 197,2722 }, { 198,2722 }, { 199,2722 }, { 200,2722 }, { 201,2722 },
+ { 202,2722 }, { 203,2722 }, { 204,2722 }, { 205,2722 }, { 206,2722 },
+ { 207,2722 }, { 208,2722 }, { 209,2722 }, { 210,2722 }, { 211,2722 },
+ { 212,2722 }, { 213,2722 }, { 214,2722 }, { 215,2722 }, { 216,2722 },
+ { 217,2722 }, { 218,2722 }, { 219,2722 }, { 220,2722 }, { 221,2722 },
+ { 222,2722 }, { 223,2722 }, { 224,2722 }, { 225,2722 }, { 226,2722 },
+ { 227,2722 }, { 228,2722 }, { 229,2722 }, { 230,2722 }, { 231,2722 },
+ { 232,2722 }, { 233,2722 }, { 234,2722 }, { 235,2722 }, { 236,2722 },
+ { 237,2722 }, { 238,2722 }, { 239,2722 }, { 240,2722 }, { 241,2722 },
 
+ { 242,2722 }, { 243,2722 }, { 244,2722 }, { 245,2722 }, { 246,2722 },
+ { 247,2722 }, { 248,2722 }, { 249,2722 }, { 250,2722 }, { 251,2722 },
+ { 252,2722 }, { 253,2722 }, { 254,2722 }, { 255,2722 }, {   0,  39 },
+ {   0,8438 }, {   1,-4450 }, {   2,-4450 }, {   3,-4450 }, {   4,-4450 },
+ {   5,-4450 }, {   6,-4450 }, {   7,-4450 }, {   8,-4450 }, {   9,-4450 },
  {  10,-4450 }, {  11,-4450 }, {  12,-4450 }, {  13,-4450 }, {  14,-4450 },
  {  15,-4450 }, {  16,-4450 }, {  17,-4450 }, {  18,-4450 }, {  19,-4450 },
  {  20,-4450 }, {  21,-4450 }, {  22,-4450 }, {  23,-4450 }, {  24,-4450 },
  {  25,-4450 }, {  26,-4450 }, {  27,-4450 }, {  28,-4450 }, {  29,-4450 },
  {  30,-4450 }, {  31,-4450 }, {  32,-4450 }, {  33,-4450 }, {  34,-4482 },
+
  {  35,-4450 }, {  36,-4450 }, {  37,-4450 }, {  38,-4450 }, {  39,-4450 },
  {  40,-4450 }, {  41,-4450 }, {  42,-4450 }, {  43,-4450 }, {  44,-4450 },
  {  45,-4450 }, {  46,-4450 }, {  47,-4450 }, {  48,-4450 }, {  49,-4450 },
  {  50,-4450 }, {  51,-4450 }, {  52,-4450 }, {  53,-4450 }, {  54,-4450 },
  {  55,-4450 }, {  56,-4450 }, {  57,-4450 }, {  58,-4450 }, {  59,-4450 },
-
  {  60,-4450 }, {  61,-4450 }, {  62,-4450 }, {  63,-4450 }, {  64,-4450 },
  {  65,-4450 }, {  66,-4450 }, {  67,-4450 }, {  68,-4450 }, {  69,-4450 },
  {  70,-4450 }, {  71,-4450 }, {  72,-4450 }, {  73,-4450 }, {  74,-4450 },
  {  75,-4450 }, {  76,-4450 }, {  77,-4450 }, {  78,-4450 }, {  79,-4450 },
  {  80,-4450 }, {  81,-4450 }, {  82,-4450 }, {  83,-4450 }, {  84,-4450 },
+
  {  85,-4450 }, {  86,-4450 }, {  87,-4450 }, {  88,-4450 }, {  89,-4450 },
  {  90,-4450 }, {  91,-4450 }, {  92,-4192 }, {  93,-4450 }, {  94,-4450 },
  {  95,-4450 }, {  96,-4450 }, {  97,-4450 }, {  98,-4450 }, {  99,-4450 },
  { 100,-4450 }, { 101,-4450 }, { 102,-4450 }, { 103,-4450 }, { 104,-4450 },
  { 105,-4450 }, { 106,-4450 }, { 107,-4450 }, { 108,-4450 }, { 109,-4450 },
-
  { 110,-4450 }, { 111,-4450 }, { 112,-4450 }, { 113,-4450 }, { 114,-4450 },
  { 115,-4450 }, { 116,-4450 }, { 117,-4450 }, { 118,-4450 }, { 119,-4450 },
  { 120,-4450 }, { 121,-4450 }, { 122,-4450 }, { 123,-4450 }, { 124,-4450 },
  { 125,-4450 }, { 126,-4450 }, { 127,-4450 }, { 128,-4450 }, { 129,-4450 },
  { 130,-4450 }, { 131,-4450 }, { 132,-4450 }, { 133,-4450 }, { 134,-4450 },
+
  { 135,-4450 }, { 136,-4450 }, { 137,-4450 }, { 138,-4450 }, { 139,-4450 },
  { 140,-4450 }, { 141,-4450 }, { 142,-4450 }, { 143,-4450 }, { 144,-4450 },
  { 145,-4450 }, { 146,-4450 }, { 147,-4450 }, { 148,-4450 }, { 149,-4450 },
  { 150,-4450 }, { 151,-4450 }, { 152,-4450 }, { 153,-4450 }, { 154,-4450 },
  { 155,-4450 }, { 156,-4450 }, { 157,-4450 }, { 158,-4450 }, { 159,-4450 },
-
  { 160,-4450 }, { 161,-4450 }, { 162,-4450 }, { 163,-4450 }, { 164,-4450 },
  { 165,-4450 }, { 166,-4450 }, { 167,-4450 }, { 168,-4450 }, { 169,-4450 },
  { 170,-4450 }, { 171,-4450 }, { 172,-4450 }, { 173,-4450 }, { 174,-4450 },
  { 175,-4450 }, { 176,-4450 }, { 177,-4450 }, { 178,-4450 }, { 179,-4450 },
  { 180,-4450 }, { 181,-4450 }, { 182,-4450 }, { 183,-4450 }, { 184,-4450 },
+
  { 185,-4450 }, { 186,-4450 }, { 187,-4450 }, { 188,-4450 }, { 189,-4450 },
  { 190,-4450 }, { 191,-4450 }, { 192,-4450 }, { 193,-4450 }, { 194,-4450 },
  { 195,-4450 }, { 196,-4450 }, { 197,-4450 }, { 198,-4450 }, { 199,-4450 },
  { 200,-4450 }, { 201,-4450 }, { 202,-4450 }, { 203,-4450 }, { 204,-4450 },
  { 205,-4450 }, { 206,-4450 }, { 207,-4450 }, { 208,-4450 }, { 209,-4450 },
-
  { 210,-4450 }, { 211,-4450 }, { 212,-4450 }, { 213,-4450 }, { 214,-4450 },
  { 215,-4450 }, { 216,-4450 }, { 217,-4450 }, { 218,-4450 }, { 219,-4450 },
  { 220,-4450 }, { 221,-4450 }, { 222,-4450 }, { 223,-4450 }, { 224,-4450 },
  { 225,-4450 }, { 226,-4450 }, { 227,-4450 }, { 228,-4450 }, { 229,-4450 },
  { 230,-4450 }, { 231,-4450 }, { 232,-4450 }, { 233,-4450 }, { 234,-4450 },
+
  { 235,-4450 }, { 236,-4450 }, { 237,-4450 }, { 238,-4450 }, { 239,-4450 },
  { 240,-4450 }, { 241,-4450 }, { 242,-4450 }, { 243,-4450 }, { 244,-4450 },
  { 245,-4450 }, { 246,-4450 }, { 247,-4450 }, { 248,-4450 }, { 249,-4450 },
  { 250,-4450 }, { 251,-4450 }, { 252,-4450 }, { 253,-4450 }, { 254,-4450 },
- { 255,-4450 }, { 256,-4450 }, {   0,  39 }, {   0,7034 }, {   1,-4192 },
-
+ { 255,-4450 }, { 256,-4450 }, {   0,  40 }, {   0,8180 }, {   1,-4192 },
  {   2,-4192 }, {   3,-4192 }, {   4,-4192 }, {   5,-4192 }, {   6,-4192 },
  {   7,-4192 }, {   8,-4192 }, {   9,-4192 }, {  10,-4192 }, {  11,-4192 },
  {  12,-4192 }, {  13,-4192 }, {  14,-4192 }, {  15,-4192 }, {  16,-4192 },
  {  17,-4192 }, {  18,-4192 }, {  19,-4192 }, {  20,-4192 }, {  21,-4192 },
  {  22,-4192 }, {  23,-4192 }, {  24,-4192 }, {  25,-4192 }, {  26,-4192 },
+
  {  27,-4192 }, {  28,-4192 }, {  29,-4192 }, {  30,-4192 }, {  31,-4192 },
  {  32,-4192 }, {  33,-4192 }, {  34,-4192 }, {  35,-4192 }, {  36,-4192 },
  {  37,-4192 }, {  38,-4192 }, {  39,-4738 }, {  40,-4192 }, {  41,-4192 },
  {  42,-4192 }, {  43,-4192 }, {  44,-4192 }, {  45,-4192 }, {  46,-4192 },
  {  47,-4192 }, {  48,-4192 }, {  49,-4192 }, {  50,-4192 }, {  51,-4192 },
-
  {  52,-4192 }, {  53,-4192 }, {  54,-4192 }, {  55,-4192 }, {  56,-4192 },
  {  57,-4192 }, {  58,-4192 }, {  59,-4192 }, {  60,-4192 }, {  61,-4192 },
  {  62,-4192 }, {  63,-4192 }, {  64,-4192 }, {  65,-4192 }, {  66,-4192 },
  {  67,-4192 }, {  68,-4192 }, {  69,-4192 }, {  70,-4192 }, {  71,-4192 },
  {  72,-4192 }, {  73,-4192 }, {  74,-4192 }, {  75,-4192 }, {  76,-4192 },
+
  {  77,-4192 }, {  78,-4192 }, {  79,-4192 }, {  80,-4192 }, {  81,-4192 },
  {  82,-4192 }, {  83,-4192 }, {  84,-4192 }, {  85,-4192 }, {  86,-4192 },
  {  87,-4192 }, {  88,-4192 }, {  89,-4192 }, {  90,-4192 }, {  91,-4192 },
  {  92,-3934 }, {  93,-4192 }, {  94,-4192 }, {  95,-4192 }, {  96,-4192 },
  {  97,-4192 }, {  98,-4192 }, {  99,-4192 }, { 100,-4192 }, { 101,-4192 },
-
  { 102,-4192 }, { 103,-4192 }, { 104,-4192 }, { 105,-4192 }, { 106,-4192 },
  { 107,-4192 }, { 108,-4192 }, { 109,-4192 }, { 110,-4192 }, { 111,-4192 },
  { 112,-4192 }, { 113,-4192 }, { 114,-4192 }, { 115,-4192 }, { 116,-4192 },
  { 117,-4192 }, { 118,-4192 }, { 119,-4192 }, { 120,-4192 }, { 121,-4192 },
  { 122,-4192 }, { 123,-4192 }, { 124,-4192 }, { 125,-4192 }, { 126,-4192 },
+
  { 127,-4192 }, { 128,-4192 }, { 129,-4192 }, { 130,-4192 }, { 131,-4192 },
  { 132,-4192 }, { 133,-4192 }, { 134,-4192 }, { 135,-4192 }, { 136,-4192 },
  { 137,-4192 }, { 138,-4192 }, { 139,-4192 }, { 140,-4192 }, { 141,-4192 },
  { 142,-4192 }, { 143,-4192 }, { 144,-4192 }, { 145,-4192 }, { 146,-4192 },
  { 147,-4192 }, { 148,-4192 }, { 149,-4192 }, { 150,-4192 }, { 151,-4192 },
-
  { 152,-4192 }, { 153,-4192 }, { 154,-4192 }, { 155,-4192 }, { 156,-4192 },
  { 157,-4192 }, { 158,-4192 }, { 159,-4192 }, { 160,-4192 }, { 161,-4192 },
  { 162,-4192 }, { 163,-4192 }, { 164,-4192 }, { 165,-4192 }, { 166,-4192 },
  { 167,-4192 }, { 168,-4192 }, { 169,-4192 }, { 170,-4192 }, { 171,-4192 },
  { 172,-4192 }, { 173,-4192 }, { 174,-4192 }, { 175,-4192 }, { 176,-4192 },
+
  { 177,-4192 }, { 178,-4192 }, { 179,-4192 }, { 180,-4192 }, { 181,-4192 },
  { 182,-4192 }, { 183,-4192 }, { 184,-4192 }, { 185,-4192 }, { 186,-4192 },
  { 187,-4192 }, { 188,-4192 }, { 189,-4192 }, { 190,-4192 }, { 191,-4192 },
  { 192,-4192 }, { 193,-4192 }, { 194,-4192 }, { 195,-4192 }, { 196,-4192 },
  { 197,-4192 }, { 198,-4192 }, { 199,-4192 }, { 200,-4192 }, { 201,-4192 },
-
  { 202,-4192 }, { 203,-4192 }, { 204,-4192 }, { 205,-4192 }, { 206,-4192 },
  { 207,-4192 }, { 208,-4192 }, { 209,-4192 }, { 210,-4192 }, { 211,-4192 },
  { 212,-4192 }, { 213,-4192 }, { 214,-4192 }, { 215,-4192 }, { 216,-4192 },
  { 217,-4192 }, { 218,-4192 }, { 219,-4192 }, { 220,-4192 }, { 221,-4192 },
  { 222,-4192 }, { 223,-4192 }, { 224,-4192 }, { 225,-4192 }, { 226,-4192 },
+
  { 227,-4192 }, { 228,-4192 }, { 229,-4192 }, { 230,-4192 }, { 231,-4192 },
  { 232,-4192 }, { 233,-4192 }, { 234,-4192 }, { 235,-4192 }, { 236,-4192 },
  { 237,-4192 }, { 238,-4192 }, { 239,-4192 }, { 240,-4192 }, { 241,-4192 },
  { 242,-4192 }, { 243,-4192 }, { 244,-4192 }, { 245,-4192 }, { 246,-4192 },
  { 247,-4192 }, { 248,-4192 }, { 249,-4192 }, { 250,-4192 }, { 251,-4192 },
-
  { 252,-4192 }, { 253,-4192 }, { 254,-4192 }, { 255,-4192 }, { 256,-4192 },
- {   0,   0 }, {   0,6776 }, {   0,  29 }, {   0,6774 }, {   0,  20 },
- {   0,6772 }, {   0,  27 }, {   0,6770 }, {   0,  30 }, {   0,6768 },
- {   9,1456 }, {  10,1456 }, {   0,  21 }, {   0,6764 }, {  13,1456 },
- {   0,  18 }, {   0,6761 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,7922 }, {   0,  30 }, {   0,7920 }, {   0,  21 },
+ {   0,7918 }, {   0,  28 }, {   0,7916 }, {   0,  31 }, {   0,7914 },
+ {   9,1828 }, {  10,1828 }, {   0,  22 }, {   0,7910 }, {  13,1828 },
+ {   0,  19 }, {   0,7907 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,1456 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,1828 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,1456 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {  42,1466 }, {  45,1461 }, {  48,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,1828 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  42,1834 }, {  45,1832 }, {  48,   0 },
  {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
  {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  62,1469 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  62,1837 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,1456 }, { 126,1456 }, {   0,  49 }, {   0,6648 },
+ {   0,   0 }, { 125,1828 }, { 126,1828 }, {   0,  50 }, {   0,7794 },
  {   1,-3745 }, {   2,-3745 }, {   3,-3745 }, {   4,-3745 }, {   5,-3745 },
  {   6,-3745 }, {   7,-3745 }, {   8,-3745 }, {   9,-3745 }, {  10,-3745 },
  {  11,-3745 }, {  12,-3745 }, {  13,-3745 }, {  14,-3745 }, {  15,-3745 },
-
  {  16,-3745 }, {  17,-3745 }, {  18,-3745 }, {  19,-3745 }, {  20,-3745 },
  {  21,-3745 }, {  22,-3745 }, {  23,-3745 }, {  24,-3745 }, {  25,-3745 },
  {  26,-3745 }, {  27,-3745 }, {  28,-3745 }, {  29,-3745 }, {  30,-3745 },
  {  31,-3745 }, {  32,-3745 }, {  33,-3745 }, {  34,-3745 }, {  35,-3745 },
  {  36,-3745 }, {  37,-3745 }, {  38,-3745 }, {  39,-3745 }, {  40,-3745 },
+
  {  41,-3745 }, {  42,-3745 }, {  43,-3745 }, {  44,-3745 }, {  45,-3745 },
  {  46,-3745 }, {  47,-3745 }, {  48,-3745 }, {  49,-3745 }, {  50,-3745 },
  {  51,-3745 }, {  52,-3745 }, {  53,-3745 }, {  54,-3745 }, {  55,-3745 },
  {  56,-3745 }, {  57,-3745 }, {  58,-3745 }, {  59,-3745 }, {  60,-3745 },
  {  61,-3745 }, {  62,-3745 }, {  63,-3745 }, {  64,-3745 }, {  65,-3745 },
-
  {  66,-3745 }, {  67,-3745 }, {  68,-3745 }, {  69,-3745 }, {  70,-3745 },
  {  71,-3745 }, {  72,-3745 }, {  73,-3745 }, {  74,-3745 }, {  75,-3745 },
  {  76,-3745 }, {  77,-3745 }, {  78,-3745 }, {  79,-3745 }, {  80,-3745 },
  {  81,-3745 }, {  82,-3745 }, {  83,-3745 }, {  84,-3745 }, {  85,-3745 },
  {  86,-3745 }, {  87,-3745 }, {  88,-3745 }, {  89,-3745 }, {  90,-3745 },
+
  {  91,-3745 }, {  92,-3487 }, {  93,-5113 }, {  94,-3745 }, {  95,-3745 },
  {  96,-3745 }, {  97,-3745 }, {  98,-3745 }, {  99,-3745 }, { 100,-3745 },
  { 101,-3745 }, { 102,-3745 }, { 103,-3745 }, { 104,-3745 }, { 105,-3745 },
  { 106,-3745 }, { 107,-3745 }, { 108,-3745 }, { 109,-3745 }, { 110,-3745 },
  { 111,-3745 }, { 112,-3745 }, { 113,-3745 }, { 114,-3745 }, { 115,-3745 },
-
  { 116,-3745 }, { 117,-3745 }, { 118,-3745 }, { 119,-3745 }, { 120,-3745 },
  { 121,-3745 }, { 122,-3745 }, { 123,-3745 }, { 124,-3745 }, { 125,-3745 },
  { 126,-3745 }, { 127,-3745 }, { 128,-3745 }, { 129,-3745 }, { 130,-3745 },
  { 131,-3745 }, { 132,-3745 }, { 133,-3745 }, { 134,-3745 }, { 135,-3745 },
  { 136,-3745 }, { 137,-3745 }, { 138,-3745 }, { 139,-3745 }, { 140,-3745 },
+
  { 141,-3745 }, { 142,-3745 }, { 143,-3745 }, { 144,-3745 }, { 145,-3745 },
  { 146,-3745 }, { 147,-3745 }, { 148,-3745 }, { 149,-3745 }, { 150,-3745 },
  { 151,-3745 }, { 152,-3745 }, { 153,-3745 }, { 154,-3745 }, { 155,-3745 },
  { 156,-3745 }, { 157,-3745 }, { 158,-3745 }, { 159,-3745 }, { 160,-3745 },
  { 161,-3745 }, { 162,-3745 }, { 163,-3745 }, { 164,-3745 }, { 165,-3745 },
-
  { 166,-3745 }, { 167,-3745 }, { 168,-3745 }, { 169,-3745 }, { 170,-3745 },
  { 171,-3745 }, { 172,-3745 }, { 173,-3745 }, { 174,-3745 }, { 175,-3745 },
  { 176,-3745 }, { 177,-3745 }, { 178,-3745 }, { 179,-3745 }, { 180,-3745 },
  { 181,-3745 }, { 182,-3745 }, { 183,-3745 }, { 184,-3745 }, { 185,-3745 },
  { 186,-3745 }, { 187,-3745 }, { 188,-3745 }, { 189,-3745 }, { 190,-3745 },
+
  { 191,-3745 }, { 192,-3745 }, { 193,-3745 }, { 194,-3745 }, { 195,-3745 },
  { 196,-3745 }, { 197,-3745 }, { 198,-3745 }, { 199,-3745 }, { 200,-3745 },
  { 201,-3745 }, { 202,-3745 }, { 203,-3745 }, { 204,-3745 }, { 205,-3745 },
  { 206,-3745 }, { 207,-3745 }, { 208,-3745 }, { 209,-3745 }, { 210,-3745 },
  { 211,-3745 }, { 212,-3745 }, { 213,-3745 }, { 214,-3745 }, { 215,-3745 },
-
  { 216,-3745 }, { 217,-3745 }, { 218,-3745 }, { 219,-3745 }, { 220,-3745 },
  { 221,-3745 }, { 222,-3745 }, { 223,-3745 }, { 224,-3745 }, { 225,-3745 },
  { 226,-3745 }, { 227,-3745 }, { 228,-3745 }, { 229,-3745 }, { 230,-3745 },
  { 231,-3745 }, { 232,-3745 }, { 233,-3745 }, { 234,-3745 }, { 235,-3745 },
  { 236,-3745 }, { 237,-3745 }, { 238,-3745 }, { 239,-3745 }, { 240,-3745 },
+
  { 241,-3745 }, { 242,-3745 }, { 243,-3745 }, { 244,-3745 }, { 245,-3745 },
  { 246,-3745 }, { 247,-3745 }, { 248,-3745 }, { 249,-3745 }, { 250,-3745 },
  { 251,-3745 }, { 252,-3745 }, { 253,-3745 }, { 254,-3745 }, { 255,-3745 },
- { 256,-3745 }, {   0,   0 }, {   0,6390 }, {   1,-5644 }, {   2,-5644 },
+ { 256,-3745 }, {   0,   0 }, {   0,7536 }, {   1,-5644 }, {   2,-5644 },
  {   3,-5644 }, {   4,-5644 }, {   5,-5644 }, {   6,-5644 }, {   7,-5644 },
-
  {   8,-5644 }, {   9,-5669 }, {  10,-5669 }, {  11,-5644 }, {  12,-5644 },
  {  13,-5669 }, {  14,-5644 }, {  15,-5644 }, {  16,-5644 }, {  17,-5644 },
  {  18,-5644 }, {  19,-5644 }, {  20,-5644 }, {  21,-5644 }, {  22,-5644 },
  {  23,-5644 }, {  24,-5644 }, {  25,-5644 }, {  26,-5644 }, {  27,-5644 },
  {  28,-5644 }, {  29,-5644 }, {  30,-5644 }, {  31,-5644 }, {  32,-5669 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-5644 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-5669 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  45,-5644 }, {  46,-5669 }, {  47,-5669 },
  {  48,-5644 }, {  49,-5644 }, {  50,-5644 }, {  51,-5644 }, {  52,-5644 },
  {  53,-5644 }, {  54,-5644 }, {  55,-5644 }, {  56,-5644 }, {  57,-5644 },
-
  {  58,-5644 }, {   0,   0 }, {   0,   0 }, {  61,-5669 }, {   0,   0 },
  {  63,-5644 }, {   0,   0 }, {  65,-5644 }, {  66,-5644 }, {  67,-5644 },
  {  68,-5644 }, {  69,-5644 }, {  70,-5644 }, {  71,-5644 }, {  72,-5644 },
  {  73,-5644 }, {  74,-5644 }, {  75,-5644 }, {  76,-5644 }, {  77,-5644 },
  {  78,-5644 }, {  79,-5644 }, {  80,-5644 }, {  81,-5644 }, {  82,-5644 },
+
  {  83,-5644 }, {  84,-5644 }, {  85,-5644 }, {  86,-5644 }, {  87,-5644 },
  {  88,-5644 }, {  89,-5644 }, {  90,-5644 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  95,-5644 }, {   0,   0 }, {  97,-5644 },
  {  98,-5644 }, {  99,-5644 }, { 100,-5644 }, { 101,-5644 }, { 102,-5644 },
  { 103,-5644 }, { 104,-5644 }, { 105,-5644 }, { 106,-5644 }, { 107,-5644 },
-
  { 108,-5644 }, { 109,-5644 }, { 110,-5644 }, { 111,-5644 }, { 112,-5644 },
- { 113,-5644 }, { 114,-5644 }, { 115,1705 }, { 116,-5644 }, { 117,-5644 },
+ { 113,-5644 }, { 114,-5644 }, { 115,2077 }, { 116,-5644 }, { 117,-5644 },
  { 118,-5644 }, { 119,-5644 }, { 120,-5644 }, { 121,-5644 }, { 122,-5644 },
  {   0,   0 }, { 124,-5669 }, { 125,-5669 }, { 126,-5669 }, { 127,-5644 },
  { 128,-5644 }, { 129,-5644 }, { 130,-5644 }, { 131,-5644 }, { 132,-5644 },
+
  { 133,-5644 }, { 134,-5644 }, { 135,-5644 }, { 136,-5644 }, { 137,-5644 },
  { 138,-5644 }, { 139,-5644 }, { 140,-5644 }, { 141,-5644 }, { 142,-5644 },
  { 143,-5644 }, { 144,-5644 }, { 145,-5644 }, { 146,-5644 }, { 147,-5644 },
  { 148,-5644 }, { 149,-5644 }, { 150,-5644 }, { 151,-5644 }, { 152,-5644 },
  { 153,-5644 }, { 154,-5644 }, { 155,-5644 }, { 156,-5644 }, { 157,-5644 },
-
  { 158,-5644 }, { 159,-5644 }, { 160,-5644 }, { 161,-5644 }, { 162,-5644 },
  { 163,-5644 }, { 164,-5644 }, { 165,-5644 }, { 166,-5644 }, { 167,-5644 },
  { 168,-5644 }, { 169,-5644 }, { 170,-5644 }, { 171,-5644 }, { 172,-5644 },
  { 173,-5644 }, { 174,-5644 }, { 175,-5644 }, { 176,-5644 }, { 177,-5644 },
  { 178,-5644 }, { 179,-5644 }, { 180,-5644 }, { 181,-5644 }, { 182,-5644 },
+
  { 183,-5644 }, { 184,-5644 }, { 185,-5644 }, { 186,-5644 }, { 187,-5644 },
  { 188,-5644 }, { 189,-5644 }, { 190,-5644 }, { 191,-5644 }, { 192,-5644 },
  { 193,-5644 }, { 194,-5644 }, { 195,-5644 }, { 196,-5644 }, { 197,-5644 },
  { 198,-5644 }, { 199,-5644 }, { 200,-5644 }, { 201,-5644 }, { 202,-5644 },
  { 203,-5644 }, { 204,-5644 }, { 205,-5644 }, { 206,-5644 }, { 207,-5644 },
-
  { 208,-5644 }, { 209,-5644 }, { 210,-5644 }, { 211,-5644 }, { 212,-5644 },
  { 213,-5644 }, { 214,-5644 }, { 215,-5644 }, { 216,-5644 }, { 217,-5644 },
  { 218,-5644 }, { 219,-5644 }, { 220,-5644 }, { 221,-5644 }, { 222,-5644 },
  { 223,-5644 }, { 224,-5644 }, { 225,-5644 }, { 226,-5644 }, { 227,-5644 },
  { 228,-5644 }, { 229,-5644 }, { 230,-5644 }, { 231,-5644 }, { 232,-5644 },
+
  { 233,-5644 }, { 234,-5644 }, { 235,-5644 }, { 236,-5644 }, { 237,-5644 },
  { 238,-5644 }, { 239,-5644 }, { 240,-5644 }, { 241,-5644 }, { 242,-5644 },
  { 243,-5644 }, { 244,-5644 }, { 245,-5644 }, { 246,-5644 }, { 247,-5644 },
  { 248,-5644 }, { 249,-5644 }, { 250,-5644 }, { 251,-5644 }, { 252,-5644 },
  { 253,-5644 }, { 254,-5644 }, { 255,-5644 }, { 256,-5644 }, {   0,   0 },
-
- {   0,6132 }, {   1,-5902 }, {   2,-5902 }, {   3,-5902 }, {   4,-5902 },
+ {   0,7278 }, {   1,-5902 }, {   2,-5902 }, {   3,-5902 }, {   4,-5902 },
  {   5,-5902 }, {   6,-5902 }, {   7,-5902 }, {   8,-5902 }, {   9,-5927 },
  {  10,-5927 }, {  11,-5902 }, {  12,-5902 }, {  13,-5927 }, {  14,-5902 },
  {  15,-5902 }, {  16,-5902 }, {  17,-5902 }, {  18,-5902 }, {  19,-5902 },
  {  20,-5902 }, {  21,-5902 }, {  22,-5902 }, {  23,-5902 }, {  24,-5902 },
+
  {  25,-5902 }, {  26,-5902 }, {  27,-5902 }, {  28,-5902 }, {  29,-5902 },
  {  30,-5902 }, {  31,-5902 }, {  32,-5927 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  36,-5902 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  41,-5927 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  45,-5902 }, {  46,-5927 }, {  47,-5927 }, {  48,-5902 }, {  49,-5902 },
-
  {  50,-5902 }, {  51,-5902 }, {  52,-5902 }, {  53,-5902 }, {  54,-5902 },
  {  55,-5902 }, {  56,-5902 }, {  57,-5902 }, {  58,-5902 }, {   0,   0 },
  {   0,   0 }, {  61,-5927 }, {   0,   0 }, {  63,-5902 }, {   0,   0 },
  {  65,-5902 }, {  66,-5902 }, {  67,-5902 }, {  68,-5902 }, {  69,-5902 },
  {  70,-5902 }, {  71,-5902 }, {  72,-5902 }, {  73,-5902 }, {  74,-5902 },
+
  {  75,-5902 }, {  76,-5902 }, {  77,-5902 }, {  78,-5902 }, {  79,-5902 },
  {  80,-5902 }, {  81,-5902 }, {  82,-5902 }, {  83,-5902 }, {  84,-5902 },
  {  85,-5902 }, {  86,-5902 }, {  87,-5902 }, {  88,-5902 }, {  89,-5902 },
  {  90,-5902 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  95,-5902 }, {   0,   0 }, {  97,-5902 }, {  98,-5902 }, {  99,-5902 },
-
  { 100,-5902 }, { 101,-5902 }, { 102,-5902 }, { 103,-5902 }, { 104,-5902 },
- { 105,-5902 }, { 106,-5902 }, { 107,-5902 }, { 108,1705 }, { 109,-5902 },
+ { 105,-5902 }, { 106,-5902 }, { 107,-5902 }, { 108,2077 }, { 109,-5902 },
  { 110,-5902 }, { 111,-5902 }, { 112,-5902 }, { 113,-5902 }, { 114,-5902 },
  { 115,-5902 }, { 116,-5902 }, { 117,-5902 }, { 118,-5902 }, { 119,-5902 },
  { 120,-5902 }, { 121,-5902 }, { 122,-5902 }, {   0,   0 }, { 124,-5927 },
+
  { 125,-5927 }, { 126,-5927 }, { 127,-5902 }, { 128,-5902 }, { 129,-5902 },
  { 130,-5902 }, { 131,-5902 }, { 132,-5902 }, { 133,-5902 }, { 134,-5902 },
  { 135,-5902 }, { 136,-5902 }, { 137,-5902 }, { 138,-5902 }, { 139,-5902 },
  { 140,-5902 }, { 141,-5902 }, { 142,-5902 }, { 143,-5902 }, { 144,-5902 },
  { 145,-5902 }, { 146,-5902 }, { 147,-5902 }, { 148,-5902 }, { 149,-5902 },
-
  { 150,-5902 }, { 151,-5902 }, { 152,-5902 }, { 153,-5902 }, { 154,-5902 },
  { 155,-5902 }, { 156,-5902 }, { 157,-5902 }, { 158,-5902 }, { 159,-5902 },
  { 160,-5902 }, { 161,-5902 }, { 162,-5902 }, { 163,-5902 }, { 164,-5902 },
  { 165,-5902 }, { 166,-5902 }, { 167,-5902 }, { 168,-5902 }, { 169,-5902 },
  { 170,-5902 }, { 171,-5902 }, { 172,-5902 }, { 173,-5902 }, { 174,-5902 },
+
  { 175,-5902 }, { 176,-5902 }, { 177,-5902 }, { 178,-5902 }, { 179,-5902 },
  { 180,-5902 }, { 181,-5902 }, { 182,-5902 }, { 183,-5902 }, { 184,-5902 },
  { 185,-5902 }, { 186,-5902 }, { 187,-5902 }, { 188,-5902 }, { 189,-5902 },
  { 190,-5902 }, { 191,-5902 }, { 192,-5902 }, { 193,-5902 }, { 194,-5902 },
  { 195,-5902 }, { 196,-5902 }, { 197,-5902 }, { 198,-5902 }, { 199,-5902 },
-
  { 200,-5902 }, { 201,-5902 }, { 202,-5902 }, { 203,-5902 }, { 204,-5902 },
  { 205,-5902 }, { 206,-5902 }, { 207,-5902 }, { 208,-5902 }, { 209,-5902 },
  { 210,-5902 }, { 211,-5902 }, { 212,-5902 }, { 213,-5902 }, { 214,-5902 },
  { 215,-5902 }, { 216,-5902 }, { 217,-5902 }, { 218,-5902 }, { 219,-5902 },
  { 220,-5902 }, { 221,-5902 }, { 222,-5902 }, { 223,-5902 }, { 224,-5902 },
+
  { 225,-5902 }, { 226,-5902 }, { 227,-5902 }, { 228,-5902 }, { 229,-5902 },
  { 230,-5902 }, { 231,-5902 }, { 232,-5902 }, { 233,-5902 }, { 234,-5902 },
  { 235,-5902 }, { 236,-5902 }, { 237,-5902 }, { 238,-5902 }, { 239,-5902 },
  { 240,-5902 }, { 241,-5902 }, { 242,-5902 }, { 243,-5902 }, { 244,-5902 },
  { 245,-5902 }, { 246,-5902 }, { 247,-5902 }, { 248,-5902 }, { 249,-5902 },
-
  { 250,-5902 }, { 251,-5902 }, { 252,-5902 }, { 253,-5902 }, { 254,-5902 },
- { 255,-5902 }, { 256,-5902 }, {   0,   0 }, {   0,5874 }, {   1,-6160 },
+ { 255,-5902 }, { 256,-5902 }, {   0,   0 }, {   0,7020 }, {   1,-6160 },
  {   2,-6160 }, {   3,-6160 }, {   4,-6160 }, {   5,-6160 }, {   6,-6160 },
  {   7,-6160 }, {   8,-6160 }, {   9,-6185 }, {  10,-6185 }, {  11,-6160 },
  {  12,-6160 }, {  13,-6185 }, {  14,-6160 }, {  15,-6160 }, {  16,-6160 },
+
  {  17,-6160 }, {  18,-6160 }, {  19,-6160 }, {  20,-6160 }, {  21,-6160 },
  {  22,-6160 }, {  23,-6160 }, {  24,-6160 }, {  25,-6160 }, {  26,-6160 },
  {  27,-6160 }, {  28,-6160 }, {  29,-6160 }, {  30,-6160 }, {  31,-6160 },
  {  32,-6185 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-6160 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-6185 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-6160 }, {  46,-6185 },
  {  47,-6185 }, {  48,-6160 }, {  49,-6160 }, {  50,-6160 }, {  51,-6160 },
  {  52,-6160 }, {  53,-6160 }, {  54,-6160 }, {  55,-6160 }, {  56,-6160 },
  {  57,-6160 }, {  58,-6160 }, {   0,   0 }, {   0,   0 }, {  61,-6185 },
  {   0,   0 }, {  63,-6160 }, {   0,   0 }, {  65,-6160 }, {  66,-6160 },
+
  {  67,-6160 }, {  68,-6160 }, {  69,-6160 }, {  70,-6160 }, {  71,-6160 },
  {  72,-6160 }, {  73,-6160 }, {  74,-6160 }, {  75,-6160 }, {  76,-6160 },
  {  77,-6160 }, {  78,-6160 }, {  79,-6160 }, {  80,-6160 }, {  81,-6160 },
  {  82,-6160 }, {  83,-6160 }, {  84,-6160 }, {  85,-6160 }, {  86,-6160 },
  {  87,-6160 }, {  88,-6160 }, {  89,-6160 }, {  90,-6160 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-6160 }, {   0,   0 },
- {  97,-6160 }, {  98,-6160 }, {  99,-6160 }, { 100,-6160 }, { 101,1705 },
+ {  97,-6160 }, {  98,-6160 }, {  99,-6160 }, { 100,-6160 }, { 101,2077 },
  { 102,-6160 }, { 103,-6160 }, { 104,-6160 }, { 105,-6160 }, { 106,-6160 },
  { 107,-6160 }, { 108,-6160 }, { 109,-6160 }, { 110,-6160 }, { 111,-6160 },
  { 112,-6160 }, { 113,-6160 }, { 114,-6160 }, { 115,-6160 }, { 116,-6160 },
+
  { 117,-6160 }, { 118,-6160 }, { 119,-6160 }, { 120,-6160 }, { 121,-6160 },
  { 122,-6160 }, {   0,   0 }, { 124,-6185 }, { 125,-6185 }, { 126,-6185 },
  { 127,-6160 }, { 128,-6160 }, { 129,-6160 }, { 130,-6160 }, { 131,-6160 },
  { 132,-6160 }, { 133,-6160 }, { 134,-6160 }, { 135,-6160 }, { 136,-6160 },
  { 137,-6160 }, { 138,-6160 }, { 139,-6160 }, { 140,-6160 }, { 141,-6160 },
-
  { 142,-6160 }, { 143,-6160 }, { 144,-6160 }, { 145,-6160 }, { 146,-6160 },
  { 147,-6160 }, { 148,-6160 }, { 149,-6160 }, { 150,-6160 }, { 151,-6160 },
  { 152,-6160 }, { 153,-6160 }, { 154,-6160 }, { 155,-6160 }, { 156,-6160 },
  { 157,-6160 }, { 158,-6160 }, { 159,-6160 }, { 160,-6160 }, { 161,-6160 },
  { 162,-6160 }, { 163,-6160 }, { 164,-6160 }, { 165,-6160 }, { 166,-6160 },
+
  { 167,-6160 }, { 168,-6160 }, { 169,-6160 }, { 170,-6160 }, { 171,-6160 },
  { 172,-6160 }, { 173,-6160 }, { 174,-6160 }, { 175,-6160 }, { 176,-6160 },
  { 177,-6160 }, { 178,-6160 }, { 179,-6160 }, { 180,-6160 }, { 181,-6160 },
  { 182,-6160 }, { 183,-6160 }, { 184,-6160 }, { 185,-6160 }, { 186,-6160 },
  { 187,-6160 }, { 188,-6160 }, { 189,-6160 }, { 190,-6160 }, { 191,-6160 },
-
  { 192,-6160 }, { 193,-6160 }, { 194,-6160 }, { 195,-6160 }, { 196,-6160 },
  { 197,-6160 }, { 198,-6160 }, { 199,-6160 }, { 200,-6160 }, { 201,-6160 },
  { 202,-6160 }, { 203,-6160 }, { 204,-6160 }, { 205,-6160 }, { 206,-6160 },
  { 207,-6160 }, { 208,-6160 }, { 209,-6160 }, { 210,-6160 }, { 211,-6160 },
  { 212,-6160 }, { 213,-6160 }, { 214,-6160 }, { 215,-6160 }, { 216,-6160 },
+
  { 217,-6160 }, { 218,-6160 }, { 219,-6160 }, { 220,-6160 }, { 221,-6160 },
  { 222,-6160 }, { 223,-6160 }, { 224,-6160 }, { 225,-6160 }, { 226,-6160 },
  { 227,-6160 }, { 228,-6160 }, { 229,-6160 }, { 230,-6160 }, { 231,-6160 },
  { 232,-6160 }, { 233,-6160 }, { 234,-6160 }, { 235,-6160 }, { 236,-6160 },
  { 237,-6160 }, { 238,-6160 }, { 239,-6160 }, { 240,-6160 }, { 241,-6160 },
-
  { 242,-6160 }, { 243,-6160 }, { 244,-6160 }, { 245,-6160 }, { 246,-6160 },
  { 247,-6160 }, { 248,-6160 }, { 249,-6160 }, { 250,-6160 }, { 251,-6160 },
  { 252,-6160 }, { 253,-6160 }, { 254,-6160 }, { 255,-6160 }, { 256,-6160 },
- {   0,   0 }, {   0,5616 }, {   1,-6418 }, {   2,-6418 }, {   3,-6418 },
+ {   0,   0 }, {   0,6762 }, {   1,-6418 }, {   2,-6418 }, {   3,-6418 },
  {   4,-6418 }, {   5,-6418 }, {   6,-6418 }, {   7,-6418 }, {   8,-6418 },
+
  {   9,-6443 }, {  10,-6443 }, {  11,-6418 }, {  12,-6418 }, {  13,-6443 },
  {  14,-6418 }, {  15,-6418 }, {  16,-6418 }, {  17,-6418 }, {  18,-6418 },
  {  19,-6418 }, {  20,-6418 }, {  21,-6418 }, {  22,-6418 }, {  23,-6418 },
  {  24,-6418 }, {  25,-6418 }, {  26,-6418 }, {  27,-6418 }, {  28,-6418 },
  {  29,-6418 }, {  30,-6418 }, {  31,-6418 }, {  32,-6443 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {  36,-6418 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  41,-6443 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  45,-6418 }, {  46,-6443 }, {  47,-6443 }, {  48,-6418 },
  {  49,-6418 }, {  50,-6418 }, {  51,-6418 }, {  52,-6418 }, {  53,-6418 },
  {  54,-6418 }, {  55,-6418 }, {  56,-6418 }, {  57,-6418 }, {  58,-6418 },
+
  {   0,   0 }, {   0,   0 }, {  61,-6443 }, {   0,   0 }, {  63,-6418 },
  {   0,   0 }, {  65,-6418 }, {  66,-6418 }, {  67,-6418 }, {  68,-6418 },
  {  69,-6418 }, {  70,-6418 }, {  71,-6418 }, {  72,-6418 }, {  73,-6418 },
  {  74,-6418 }, {  75,-6418 }, {  76,-6418 }, {  77,-6418 }, {  78,-6418 },
  {  79,-6418 }, {  80,-6418 }, {  81,-6418 }, {  82,-6418 }, {  83,-6418 },
-
  {  84,-6418 }, {  85,-6418 }, {  86,-6418 }, {  87,-6418 }, {  88,-6418 },
  {  89,-6418 }, {  90,-6418 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  95,-6418 }, {   0,   0 }, {  97,-6418 }, {  98,-6418 },
- {  99,-6418 }, { 100,-6418 }, { 101,1705 }, { 102,-6418 }, { 103,-6418 },
+ {  99,-6418 }, { 100,-6418 }, { 101,2077 }, { 102,-6418 }, { 103,-6418 },
  { 104,-6418 }, { 105,-6418 }, { 106,-6418 }, { 107,-6418 }, { 108,-6418 },
+
  { 109,-6418 }, { 110,-6418 }, { 111,-6418 }, { 112,-6418 }, { 113,-6418 },
  { 114,-6418 }, { 115,-6418 }, { 116,-6418 }, { 117,-6418 }, { 118,-6418 },
  { 119,-6418 }, { 120,-6418 }, { 121,-6418 }, { 122,-6418 }, {   0,   0 },
  { 124,-6443 }, { 125,-6443 }, { 126,-6443 }, { 127,-6418 }, { 128,-6418 },
  { 129,-6418 }, { 130,-6418 }, { 131,-6418 }, { 132,-6418 }, { 133,-6418 },
-
  { 134,-6418 }, { 135,-6418 }, { 136,-6418 }, { 137,-6418 }, { 138,-6418 },
  { 139,-6418 }, { 140,-6418 }, { 141,-6418 }, { 142,-6418 }, { 143,-6418 },
  { 144,-6418 }, { 145,-6418 }, { 146,-6418 }, { 147,-6418 }, { 148,-6418 },
  { 149,-6418 }, { 150,-6418 }, { 151,-6418 }, { 152,-6418 }, { 153,-6418 },
  { 154,-6418 }, { 155,-6418 }, { 156,-6418 }, { 157,-6418 }, { 158,-6418 },
+
  { 159,-6418 }, { 160,-6418 }, { 161,-6418 }, { 162,-6418 }, { 163,-6418 },
  { 164,-6418 }, { 165,-6418 }, { 166,-6418 }, { 167,-6418 }, { 168,-6418 },
  { 169,-6418 }, { 170,-6418 }, { 171,-6418 }, { 172,-6418 }, { 173,-6418 },
  { 174,-6418 }, { 175,-6418 }, { 176,-6418 }, { 177,-6418 }, { 178,-6418 },
  { 179,-6418 }, { 180,-6418 }, { 181,-6418 }, { 182,-6418 }, { 183,-6418 },
-
  { 184,-6418 }, { 185,-6418 }, { 186,-6418 }, { 187,-6418 }, { 188,-6418 },
  { 189,-6418 }, { 190,-6418 }, { 191,-6418 }, { 192,-6418 }, { 193,-6418 },
  { 194,-6418 }, { 195,-6418 }, { 196,-6418 }, { 197,-6418 }, { 198,-6418 },
  { 199,-6418 }, { 200,-6418 }, { 201,-6418 }, { 202,-6418 }, { 203,-6418 },
  { 204,-6418 }, { 205,-6418 }, { 206,-6418 }, { 207,-6418 }, { 208,-6418 },
+
  { 209,-6418 }, { 210,-6418 }, { 211,-6418 }, { 212,-6418 }, { 213,-6418 },
  { 214,-6418 }, { 215,-6418 }, { 216,-6418 }, { 217,-6418 }, { 218,-6418 },
  { 219,-6418 }, { 220,-6418 }, { 221,-6418 }, { 222,-6418 }, { 223,-6418 },
  { 224,-6418 }, { 225,-6418 }, { 226,-6418 }, { 227,-6418 }, { 228,-6418 },
  { 229,-6418 }, { 230,-6418 }, { 231,-6418 }, { 232,-6418 }, { 233,-6418 },
-
  { 234,-6418 }, { 235,-6418 }, { 236,-6418 }, { 237,-6418 }, { 238,-6418 },
  { 239,-6418 }, { 240,-6418 }, { 241,-6418 }, { 242,-6418 }, { 243,-6418 },
  { 244,-6418 }, { 245,-6418 }, { 246,-6418 }, { 247,-6418 }, { 248,-6418 },
  { 249,-6418 }, { 250,-6418 }, { 251,-6418 }, { 252,-6418 }, { 253,-6418 },
- { 254,-6418 }, { 255,-6418 }, { 256,-6418 }, {   0,   0 }, {   0,5358 },
- {   0,  24 }, {   0,5356 }, {   0,   0 }, {   0,5354 }, {   0,   0 },
- {   0,5352 }, {   0,  26 }, {   0,5350 }, {   9,   0 }, {  10,   0 },
- {   0,  36 }, {   0,5346 }, {  13,   0 }, {   0,  30 }, {   0,5343 },
- {   0,   0 }, {   0,5341 }, {   0,  37 }, {   0,5339 }, {   0,   0 },
- {   0,5337 }, {   0,   0 }, {   0,5335 }, {   9, -15 }, {  10, -15 },
-
- {   0,   0 }, {   0,5331 }, {  13, -15 }, {   0,   0 }, {   0,5328 },
- {   0,   0 }, {  32,   0 }, {   0,   1 }, {   0,5324 }, {   0,   4 },
- {   0,5322 }, {   0,  47 }, {   0,5320 }, {   0,  41 }, {   0,5318 },
- {   0,   0 }, {   0,   0 }, {   0,5315 }, {   0,   0 }, {   0,5313 },
- {  10,   0 }, {  32, -15 }, {  33,-1431 }, {  13,   0 }, {  35,-1429 },
- {   0,  20 }, {   0,5306 }, {  38,-1427 }, {   0,  19 }, {   0,5303 },
- {  33,  -2 }, {  42,-1425 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  47,-1421 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,1702 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 254,-6418 }, { 255,-6418 }, { 256,-6418 }, {   0,   0 }, {   0,6504 },
+
+ {   0,  25 }, {   0,6502 }, {   0,   0 }, {   0,6500 }, {   0,   0 },
+ {   0,6498 }, {   0,  27 }, {   0,6496 }, {   9,   0 }, {  10,   0 },
+ {   0,  37 }, {   0,6492 }, {  13,   0 }, {   0,  31 }, {   0,6489 },
+ {   0,   0 }, {   0,6487 }, {   0,  38 }, {   0,6485 }, {   0,   0 },
+ {   0,6483 }, {   0,   0 }, {   0,   0 }, {   9, -15 }, {  10, -15 },
+ {   0,   0 }, {   0,   0 }, {  13, -15 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  32,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  32, -15 }, {  33,-1431 }, {   0,   0 }, {  35,-1429 },
 
+ {   0,   0 }, {   0,   0 }, {  38,-1427 }, {  33, 123 }, {   0,   0 },
+ {   0,   0 }, {  42,-1425 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  47,-1421 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  62,-1418 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,2594 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 101,  43 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 101,1707 }, {   0,   0 }, {  94, -13 }, {   0,   0 },
- {   0,   0 }, { 108,1707 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 101, -11 }, { 115,1703 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ { 101, 414 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 101,2079 }, {   0,   0 }, {  94, -13 }, {   0,   0 },
+ {   0,   0 }, { 108,2079 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 101, -11 }, { 115,2075 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  { 115,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 125,2077 }, { 126,2079 }, {   0,   0 }, { 115,  -9 },
+ { 123,2079 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 125,2079 }, { 123,2074 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 125,2076 }, {   0,   0 }, {   0,6360 }, {   1,2064 },
+ {   2,2064 }, {   3,2064 }, {   4,2064 }, {   5,2064 }, {   6,2064 },
 
- {   0,   0 }, { 125,1705 }, { 126,1707 }, {   0,   0 }, { 115,  -9 },
- { 123,1707 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,1707 }, { 123,1702 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,1704 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,1809 },
- { 108,2594 }, {   0,   0 }, { 123,2064 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 123,2062 }, {   0,   4 }, {   0,5199 }, {   1,   0 },
- {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
- {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,-123 }, {  11,   0 },
- {  12,   0 }, {  13,-123 }, {  14,   0 }, {  15,   0 }, {  16,   0 },
+ {   7,2064 }, {   8,2064 }, {   9,2064 }, {  10,2064 }, {  11,2064 },
+ {  12,2064 }, {  13,2064 }, {  14,2064 }, {  15,2064 }, {  16,2064 },
+ {  17,2064 }, {  18,2064 }, {  19,2064 }, {  20,2064 }, {  21,2064 },
+ {  22,2064 }, {  23,2064 }, {  24,2064 }, {  25,2064 }, {  26,2064 },
+ {  27,2064 }, {  28,2064 }, {  29,2064 }, {  30,2064 }, {  31,2064 },
+ {  32,2064 }, {  33,2064 }, {  34,2064 }, {  35,2064 }, {  36,2064 },
+ {  37,2064 }, {  38,2064 }, {  39,2064 }, {  40,2064 }, {  41,2064 },
+ {  42,2064 }, {  43,2064 }, {  44,2064 }, {  45,2322 }, {  46,2064 },
+ {  47,2064 }, {  48,2064 }, {  49,2064 }, {  50,2064 }, {  51,2064 },
+ {  52,2064 }, {  53,2064 }, {  54,2064 }, {  55,2064 }, {  56,2064 },
 
- {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 },
- {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 },
- {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 },
- {  32,   0 }, {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 },
- {  37,   0 }, {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 },
- {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45,   0 }, {  46,   0 },
- {  47,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 },
- {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 },
- {  57,   0 }, {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 },
- {  62,   0 }, {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 },
+ {  57,2064 }, {  58,2064 }, {  59,2064 }, {  60,2064 }, {  61,2064 },
+ {  62,2064 }, {  63,2064 }, {  64,2064 }, {  65,2064 }, {  66,2064 },
+ {  67,2064 }, {  68,2064 }, {  69,2064 }, {  70,2064 }, {  71,2064 },
+ {  72,2064 }, {  73,2064 }, {  74,2064 }, {  75,2064 }, {  76,2064 },
+ {  77,2064 }, {  78,2064 }, {  79,2064 }, {  80,2064 }, {  81,2064 },
+ {  82,2064 }, {  83,2064 }, {  84,2064 }, {  85,2064 }, {  86,2064 },
+ {  87,2064 }, {  88,2064 }, {  89,2064 }, {  90,2064 }, {  91,2064 },
+ {  92,2064 }, {  93,2064 }, {  94,2064 }, {  95,2064 }, {  96,2064 },
+ {  97,2064 }, {  98,2064 }, {  99,2064 }, { 100,2064 }, { 101,2064 },
+ { 102,2064 }, { 103,2064 }, { 104,2064 }, { 105,2064 }, { 106,2064 },
 
- {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 },
- {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 },
- {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 },
- {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 },
- {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 },
- {   0,   0 }, {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 },
- {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 },
- { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 },
- { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 },
- { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 },
+ { 107,2064 }, { 108,2064 }, { 109,2064 }, { 110,2064 }, { 111,2064 },
+ { 112,2064 }, { 113,2064 }, { 114,2064 }, { 115,2064 }, { 116,2064 },
+ { 117,2064 }, { 118,2064 }, { 119,2064 }, { 120,2064 }, { 121,2064 },
+ { 122,2064 }, { 123,2064 }, { 124,2064 }, { 125,2064 }, { 126,2064 },
+ { 127,2064 }, { 128,2064 }, { 129,2064 }, { 130,2064 }, { 131,2064 },
+ { 132,2064 }, { 133,2064 }, { 134,2064 }, { 135,2064 }, { 136,2064 },
+ { 137,2064 }, { 138,2064 }, { 139,2064 }, { 140,2064 }, { 141,2064 },
+ { 142,2064 }, { 143,2064 }, { 144,2064 }, { 145,2064 }, { 146,2064 },
+ { 147,2064 }, { 148,2064 }, { 149,2064 }, { 150,2064 }, { 151,2064 },
+ { 152,2064 }, { 153,2064 }, { 154,2064 }, { 155,2064 }, { 156,2064 },
 
- { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 },
- { 122,   0 }, {   0,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 },
- { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 },
- { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 },
- { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 },
- { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 },
- { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 },
- { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 },
- { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 },
- { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 },
+ { 157,2064 }, { 158,2064 }, { 159,2064 }, { 160,2064 }, { 161,2064 },
+ { 162,2064 }, { 163,2064 }, { 164,2064 }, { 165,2064 }, { 166,2064 },
+ { 167,2064 }, { 168,2064 }, { 169,2064 }, { 170,2064 }, { 171,2064 },
+ { 172,2064 }, { 173,2064 }, { 174,2064 }, { 175,2064 }, { 176,2064 },
+ { 177,2064 }, { 178,2064 }, { 179,2064 }, { 180,2064 }, { 181,2064 },
+ { 182,2064 }, { 183,2064 }, { 184,2064 }, { 185,2064 }, { 186,2064 },
+ { 187,2064 }, { 188,2064 }, { 189,2064 }, { 190,2064 }, { 191,2064 },
+ { 192,2064 }, { 193,2064 }, { 194,2064 }, { 195,2064 }, { 196,2064 },
+ { 197,2064 }, { 198,2064 }, { 199,2064 }, { 200,2064 }, { 201,2064 },
+ { 202,2064 }, { 203,2064 }, { 204,2064 }, { 205,2064 }, { 206,2064 },
 
- { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 },
- { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 },
- { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 },
- { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 },
- { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 },
- { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 },
- { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 },
- { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 },
- { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 },
- { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 },
+ { 207,2064 }, { 208,2064 }, { 209,2064 }, { 210,2064 }, { 211,2064 },
+ { 212,2064 }, { 213,2064 }, { 214,2064 }, { 215,2064 }, { 216,2064 },
+ { 217,2064 }, { 218,2064 }, { 219,2064 }, { 220,2064 }, { 221,2064 },
+ { 222,2064 }, { 223,2064 }, { 224,2064 }, { 225,2064 }, { 226,2064 },
+ { 227,2064 }, { 228,2064 }, { 229,2064 }, { 230,2064 }, { 231,2064 },
+ { 232,2064 }, { 233,2064 }, { 234,2064 }, { 235,2064 }, { 236,2064 },
+ { 237,2064 }, { 238,2064 }, { 239,2064 }, { 240,2064 }, { 241,2064 },
+ { 242,2064 }, { 243,2064 }, { 244,2064 }, { 245,2064 }, { 246,2064 },
+ { 247,2064 }, { 248,2064 }, { 249,2064 }, { 250,2064 }, { 251,2064 },
+ { 252,2064 }, { 253,2064 }, { 254,2064 }, { 255,2064 }, { 256,2064 },
 
- { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 },
- { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 },
- { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 },
- { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 },
- { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 },
- { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
- { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
- { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   4 },
- {   0,4942 }, {   1,-257 }, {   2,-257 }, {   3,-257 }, {   4,-257 },
- {   5,-257 }, {   6,-257 }, {   7,-257 }, {   8,-257 }, {   9,-257 },
-
- {  10,-380 }, {  11,-257 }, {  12,-257 }, {  13,-380 }, {  14,-257 },
- {  15,-257 }, {  16,-257 }, {  17,-257 }, {  18,-257 }, {  19,-257 },
- {  20,-257 }, {  21,-257 }, {  22,-257 }, {  23,-257 }, {  24,-257 },
- {  25,-257 }, {  26,-257 }, {  27,-257 }, {  28,-257 }, {  29,-257 },
- {  30,-257 }, {  31,-257 }, {  32,-257 }, {  33,-257 }, {  34,-257 },
- {  35,-257 }, {  36,-257 }, {  37,-257 }, {  38,-257 }, {  39,-257 },
- {  40,-257 }, {  41,-257 }, {  42,-257 }, {  43,-257 }, {  44,-257 },
- {  45,-257 }, {  46,-257 }, {  47,-257 }, {  48,-257 }, {  49,-257 },
- {  50,-257 }, {  51,-257 }, {  52,-257 }, {  53,-257 }, {  54,-257 },
- {  55,-257 }, {  56,-257 }, {  57,-257 }, {  58,-257 }, {  59,-257 },
-
- {  60,-257 }, {  61,-257 }, {  62,-257 }, {  63,-257 }, {  64,-257 },
- {  65,-257 }, {  66,-257 }, {  67,-257 }, {  68,-257 }, {  69,-257 },
- {  70,-257 }, {  71,-257 }, {  72,-257 }, {  73,-257 }, {  74,-257 },
- {  75,-257 }, {  76,-257 }, {  77,-257 }, {  78,-257 }, {  79,-257 },
- {  80,-257 }, {  81,-257 }, {  82,-257 }, {  83,-257 }, {  84,-257 },
- {  85,-257 }, {  86,-257 }, {  87,-257 }, {  88,-257 }, {  89,-257 },
- {  90,-257 }, {  91,-257 }, {   0,   0 }, {  93,-257 }, {  94,-257 },
- {  95,-257 }, {  96,-257 }, {  97,-257 }, {  98,-257 }, {  99,-257 },
- { 100,-257 }, { 101,-257 }, { 102,-257 }, { 103,-257 }, { 104,-257 },
- { 105,-257 }, { 106,-257 }, { 107,-257 }, { 108,-257 }, { 109,-257 },
-
- { 110,-257 }, { 111,-257 }, { 112,-257 }, { 113,-257 }, { 114,-257 },
- { 115,-257 }, { 116,-257 }, { 117,-257 }, { 118,-257 }, { 119,-257 },
- { 120,-257 }, { 121,-257 }, { 122,-257 }, {   0,   0 }, { 124,-257 },
- { 125,-257 }, { 126,-257 }, { 127,-257 }, { 128,-257 }, { 129,-257 },
- { 130,-257 }, { 131,-257 }, { 132,-257 }, { 133,-257 }, { 134,-257 },
- { 135,-257 }, { 136,-257 }, { 137,-257 }, { 138,-257 }, { 139,-257 },
- { 140,-257 }, { 141,-257 }, { 142,-257 }, { 143,-257 }, { 144,-257 },
- { 145,-257 }, { 146,-257 }, { 147,-257 }, { 148,-257 }, { 149,-257 },
- { 150,-257 }, { 151,-257 }, { 152,-257 }, { 153,-257 }, { 154,-257 },
- { 155,-257 }, { 156,-257 }, { 157,-257 }, { 158,-257 }, { 159,-257 },
-
- { 160,-257 }, { 161,-257 }, { 162,-257 }, { 163,-257 }, { 164,-257 },
- { 165,-257 }, { 166,-257 }, { 167,-257 }, { 168,-257 }, { 169,-257 },
- { 170,-257 }, { 171,-257 }, { 172,-257 }, { 173,-257 }, { 174,-257 },
- { 175,-257 }, { 176,-257 }, { 177,-257 }, { 178,-257 }, { 179,-257 },
- { 180,-257 }, { 181,-257 }, { 182,-257 }, { 183,-257 }, { 184,-257 },
- { 185,-257 }, { 186,-257 }, { 187,-257 }, { 188,-257 }, { 189,-257 },
- { 190,-257 }, { 191,-257 }, { 192,-257 }, { 193,-257 }, { 194,-257 },
- { 195,-257 }, { 196,-257 }, { 197,-257 }, { 198,-257 }, { 199,-257 },
- { 200,-257 }, { 201,-257 }, { 202,-257 }, { 203,-257 }, { 204,-257 },
- { 205,-257 }, { 206,-257 }, { 207,-257 }, { 208,-257 }, { 209,-257 },
-
- { 210,-257 }, { 211,-257 }, { 212,-257 }, { 213,-257 }, { 214,-257 },
- { 215,-257 }, { 216,-257 }, { 217,-257 }, { 218,-257 }, { 219,-257 },
- { 220,-257 }, { 221,-257 }, { 222,-257 }, { 223,-257 }, { 224,-257 },
- { 225,-257 }, { 226,-257 }, { 227,-257 }, { 228,-257 }, { 229,-257 },
- { 230,-257 }, { 231,-257 }, { 232,-257 }, { 233,-257 }, { 234,-257 },
- { 235,-257 }, { 236,-257 }, { 237,-257 }, { 238,-257 }, { 239,-257 },
- { 240,-257 }, { 241,-257 }, { 242,-257 }, { 243,-257 }, { 244,-257 },
- { 245,-257 }, { 246,-257 }, { 247,-257 }, { 248,-257 }, { 249,-257 },
- { 250,-257 }, { 251,-257 }, { 252,-257 }, { 253,-257 }, { 254,-257 },
- { 255,-257 }, {   0,   0 }, {   0,4685 }, {   1,-7349 }, {   2,-7349 },
-
- {   3,-7349 }, {   4,-7349 }, {   5,-7349 }, {   6,-7349 }, {   7,-7349 },
- {   8,-7349 }, {   9,-7374 }, {  10,-7374 }, {  11,-7349 }, {  12,-7349 },
- {  13,-7374 }, {  14,-7349 }, {  15,-7349 }, {  16,-7349 }, {  17,-7349 },
- {  18,-7349 }, {  19,-7349 }, {  20,-7349 }, {  21,-7349 }, {  22,-7349 },
- {  23,-7349 }, {  24,-7349 }, {  25,-7349 }, {  26,-7349 }, {  27,-7349 },
- {  28,-7349 }, {  29,-7349 }, {  30,-7349 }, {  31,-7349 }, {  32,-7374 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-7349 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-7374 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-7349 }, {  46,-7374 }, {  47,-7374 },
- {  48,-7349 }, {  49,-7349 }, {  50,-7349 }, {  51,-7349 }, {  52,-7349 },
-
- {  53,-7349 }, {  54,-7349 }, {  55,-7349 }, {  56,-7349 }, {  57,-7349 },
- {  58,-7349 }, {   0,   0 }, {   0,   0 }, {  61,-7374 }, {   0,   0 },
- {  63,-7349 }, {   0,   0 }, {  65,-7349 }, {  66,-7349 }, {  67,-7349 },
- {  68,-7349 }, {  69,-7349 }, {  70,-7349 }, {  71,-7349 }, {  72,-7349 },
- {  73,-7349 }, {  74,-7349 }, {  75,-7349 }, {  76,-7349 }, {  77,-7349 },
- {  78,-7349 }, {  79,-7349 }, {  80,-7349 }, {  81,-7349 }, {  82,-7349 },
- {  83,-7349 }, {  84,-7349 }, {  85,-7349 }, {  86,-7349 }, {  87,-7349 },
- {  88,-7349 }, {  89,-7349 }, {  90,-7349 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-7349 }, {   0,   0 }, {  97,-7349 },
- {  98,-7349 }, {  99,-7349 }, { 100,-7349 }, { 101,1448 }, { 102,-7349 },
-
- { 103,-7349 }, { 104,-7349 }, { 105,-7349 }, { 106,-7349 }, { 107,-7349 },
- { 108,-7349 }, { 109,-7349 }, { 110,-7349 }, { 111,-7349 }, { 112,-7349 },
- { 113,-7349 }, { 114,-7349 }, { 115,-7349 }, { 116,-7349 }, { 117,-7349 },
- { 118,-7349 }, { 119,-7349 }, { 120,-7349 }, { 121,-7349 }, { 122,-7349 },
- {   0,   0 }, { 124,-7374 }, { 125,-7374 }, { 126,-7374 }, { 127,-7349 },
- { 128,-7349 }, { 129,-7349 }, { 130,-7349 }, { 131,-7349 }, { 132,-7349 },
- { 133,-7349 }, { 134,-7349 }, { 135,-7349 }, { 136,-7349 }, { 137,-7349 },
- { 138,-7349 }, { 139,-7349 }, { 140,-7349 }, { 141,-7349 }, { 142,-7349 },
- { 143,-7349 }, { 144,-7349 }, { 145,-7349 }, { 146,-7349 }, { 147,-7349 },
- { 148,-7349 }, { 149,-7349 }, { 150,-7349 }, { 151,-7349 }, { 152,-7349 },
-
- { 153,-7349 }, { 154,-7349 }, { 155,-7349 }, { 156,-7349 }, { 157,-7349 },
- { 158,-7349 }, { 159,-7349 }, { 160,-7349 }, { 161,-7349 }, { 162,-7349 },
- { 163,-7349 }, { 164,-7349 }, { 165,-7349 }, { 166,-7349 }, { 167,-7349 },
- { 168,-7349 }, { 169,-7349 }, { 170,-7349 }, { 171,-7349 }, { 172,-7349 },
- { 173,-7349 }, { 174,-7349 }, { 175,-7349 }, { 176,-7349 }, { 177,-7349 },
- { 178,-7349 }, { 179,-7349 }, { 180,-7349 }, { 181,-7349 }, { 182,-7349 },
- { 183,-7349 }, { 184,-7349 }, { 185,-7349 }, { 186,-7349 }, { 187,-7349 },
- { 188,-7349 }, { 189,-7349 }, { 190,-7349 }, { 191,-7349 }, { 192,-7349 },
- { 193,-7349 }, { 194,-7349 }, { 195,-7349 }, { 196,-7349 }, { 197,-7349 },
- { 198,-7349 }, { 199,-7349 }, { 200,-7349 }, { 201,-7349 }, { 202,-7349 },
-
- { 203,-7349 }, { 204,-7349 }, { 205,-7349 }, { 206,-7349 }, { 207,-7349 },
- { 208,-7349 }, { 209,-7349 }, { 210,-7349 }, { 211,-7349 }, { 212,-7349 },
- { 213,-7349 }, { 214,-7349 }, { 215,-7349 }, { 216,-7349 }, { 217,-7349 },
- { 218,-7349 }, { 219,-7349 }, { 220,-7349 }, { 221,-7349 }, { 222,-7349 },
- { 223,-7349 }, { 224,-7349 }, { 225,-7349 }, { 226,-7349 }, { 227,-7349 },
- { 228,-7349 }, { 229,-7349 }, { 230,-7349 }, { 231,-7349 }, { 232,-7349 },
- { 233,-7349 }, { 234,-7349 }, { 235,-7349 }, { 236,-7349 }, { 237,-7349 },
- { 238,-7349 }, { 239,-7349 }, { 240,-7349 }, { 241,-7349 }, { 242,-7349 },
- { 243,-7349 }, { 244,-7349 }, { 245,-7349 }, { 246,-7349 }, { 247,-7349 },
- { 248,-7349 }, { 249,-7349 }, { 250,-7349 }, { 251,-7349 }, { 252,-7349 },
-
- { 253,-7349 }, { 254,-7349 }, { 255,-7349 }, { 256,-7349 }, {   0,   0 },
- {   0,4427 }, {   1,-7607 }, {   2,-7607 }, {   3,-7607 }, {   4,-7607 },
- {   5,-7607 }, {   6,-7607 }, {   7,-7607 }, {   8,-7607 }, {   9,1167 },
- {  10,1167 }, {  11,-7607 }, {  12,-7607 }, {  13,1167 }, {  14,-7607 },
- {  15,-7607 }, {  16,-7607 }, {  17,-7607 }, {  18,-7607 }, {  19,-7607 },
- {  20,-7607 }, {  21,-7607 }, {  22,-7607 }, {  23,-7607 }, {  24,-7607 },
- {  25,-7607 }, {  26,-7607 }, {  27,-7607 }, {  28,-7607 }, {  29,-7607 },
- {  30,-7607 }, {  31,-7607 }, {  32,1167 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-7607 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,1167 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {  45,-7607 }, {  46,-7632 }, {  47,-7632 }, {  48,-7607 }, {  49,-7607 },
- {  50,-7607 }, {  51,-7607 }, {  52,-7607 }, {  53,-7607 }, {  54,-7607 },
- {  55,-7607 }, {  56,-7607 }, {  57,-7607 }, {  58,-7607 }, {   0,   0 },
- {   0,   0 }, {  61,-7632 }, {   0,   0 }, {  63,-7607 }, {   0,   0 },
- {  65,-7607 }, {  66,-7607 }, {  67,-7607 }, {  68,-7607 }, {  69,-7607 },
- {  70,-7607 }, {  71,-7607 }, {  72,-7607 }, {  73,-7607 }, {  74,-7607 },
- {  75,-7607 }, {  76,-7607 }, {  77,-7607 }, {  78,-7607 }, {  79,-7607 },
- {  80,-7607 }, {  81,-7607 }, {  82,-7607 }, {  83,-7607 }, {  84,-7607 },
- {  85,-7607 }, {  86,-7607 }, {  87,-7607 }, {  88,-7607 }, {  89,-7607 },
- {  90,-7607 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {  95,-7607 }, {   0,   0 }, {  97,-7607 }, {  98,-7607 }, {  99,-7607 },
- { 100,-7607 }, { 101,-7607 }, { 102,-7607 }, { 103,-7607 }, { 104,-7607 },
- { 105,-7607 }, { 106,-7607 }, { 107,-7607 }, { 108,-7607 }, { 109,-7607 },
- { 110,-7607 }, { 111,-7607 }, { 112,-7607 }, { 113,-7607 }, { 114,-7607 },
- { 115,-7607 }, { 116,-7607 }, { 117,-7607 }, { 118,-7607 }, { 119,-7607 },
- { 120,-7607 }, { 121,-7607 }, { 122,-7607 }, {   0,   0 }, { 124,-7632 },
- { 125,1167 }, { 126,1167 }, { 127,-7607 }, { 128,-7607 }, { 129,-7607 },
- { 130,-7607 }, { 131,-7607 }, { 132,-7607 }, { 133,-7607 }, { 134,-7607 },
- { 135,-7607 }, { 136,-7607 }, { 137,-7607 }, { 138,-7607 }, { 139,-7607 },
- { 140,-7607 }, { 141,-7607 }, { 142,-7607 }, { 143,-7607 }, { 144,-7607 },
-
- { 145,-7607 }, { 146,-7607 }, { 147,-7607 }, { 148,-7607 }, { 149,-7607 },
- { 150,-7607 }, { 151,-7607 }, { 152,-7607 }, { 153,-7607 }, { 154,-7607 },
- { 155,-7607 }, { 156,-7607 }, { 157,-7607 }, { 158,-7607 }, { 159,-7607 },
- { 160,-7607 }, { 161,-7607 }, { 162,-7607 }, { 163,-7607 }, { 164,-7607 },
- { 165,-7607 }, { 166,-7607 }, { 167,-7607 }, { 168,-7607 }, { 169,-7607 },
- { 170,-7607 }, { 171,-7607 }, { 172,-7607 }, { 173,-7607 }, { 174,-7607 },
- { 175,-7607 }, { 176,-7607 }, { 177,-7607 }, { 178,-7607 }, { 179,-7607 },
- { 180,-7607 }, { 181,-7607 }, { 182,-7607 }, { 183,-7607 }, { 184,-7607 },
- { 185,-7607 }, { 186,-7607 }, { 187,-7607 }, { 188,-7607 }, { 189,-7607 },
- { 190,-7607 }, { 191,-7607 }, { 192,-7607 }, { 193,-7607 }, { 194,-7607 },
-
- { 195,-7607 }, { 196,-7607 }, { 197,-7607 }, { 198,-7607 }, { 199,-7607 },
- { 200,-7607 }, { 201,-7607 }, { 202,-7607 }, { 203,-7607 }, { 204,-7607 },
- { 205,-7607 }, { 206,-7607 }, { 207,-7607 }, { 208,-7607 }, { 209,-7607 },
- { 210,-7607 }, { 211,-7607 }, { 212,-7607 }, { 213,-7607 }, { 214,-7607 },
- { 215,-7607 }, { 216,-7607 }, { 217,-7607 }, { 218,-7607 }, { 219,-7607 },
- { 220,-7607 }, { 221,-7607 }, { 222,-7607 }, { 223,-7607 }, { 224,-7607 },
- { 225,-7607 }, { 226,-7607 }, { 227,-7607 }, { 228,-7607 }, { 229,-7607 },
- { 230,-7607 }, { 231,-7607 }, { 232,-7607 }, { 233,-7607 }, { 234,-7607 },
- { 235,-7607 }, { 236,-7607 }, { 237,-7607 }, { 238,-7607 }, { 239,-7607 },
- { 240,-7607 }, { 241,-7607 }, { 242,-7607 }, { 243,-7607 }, { 244,-7607 },
-
- { 245,-7607 }, { 246,-7607 }, { 247,-7607 }, { 248,-7607 }, { 249,-7607 },
- { 250,-7607 }, { 251,-7607 }, { 252,-7607 }, { 253,-7607 }, { 254,-7607 },
- { 255,-7607 }, { 256,-7607 }, {   0,   0 }, {   0,4169 }, {   1,-7865 },
- {   2,-7865 }, {   3,-7865 }, {   4,-7865 }, {   5,-7865 }, {   6,-7865 },
- {   7,-7865 }, {   8,-7865 }, {   9, 911 }, {  10, 911 }, {  11,-7865 },
- {  12,-7865 }, {  13, 911 }, {  14,-7865 }, {  15,-7865 }, {  16,-7865 },
- {  17,-7865 }, {  18,-7865 }, {  19,-7865 }, {  20,-7865 }, {  21,-7865 },
- {  22,-7865 }, {  23,-7865 }, {  24,-7865 }, {  25,-7865 }, {  26,-7865 },
- {  27,-7865 }, {  28,-7865 }, {  29,-7865 }, {  30,-7865 }, {  31,-7865 },
- {  32, 911 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-7865 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41, 911 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-7865 }, {  46,-7890 },
- {  47,-7890 }, {  48,-7865 }, {  49,-7865 }, {  50,-7865 }, {  51,-7865 },
- {  52,-7865 }, {  53,-7865 }, {  54,-7865 }, {  55,-7865 }, {  56,-7865 },
- {  57,-7865 }, {  58,-7865 }, {   0,   0 }, {   0,   0 }, {  61,-7890 },
- {   0,   0 }, {  63,-7865 }, {   0,   0 }, {  65,-7865 }, {  66,-7865 },
- {  67,-7865 }, {  68,-7865 }, {  69,-7865 }, {  70,-7865 }, {  71,-7865 },
- {  72,-7865 }, {  73,-7865 }, {  74,-7865 }, {  75,-7865 }, {  76,-7865 },
- {  77,-7865 }, {  78,-7865 }, {  79,-7865 }, {  80,-7865 }, {  81,-7865 },
- {  82,-7865 }, {  83,-7865 }, {  84,-7865 }, {  85,-7865 }, {  86,-7865 },
-
- {  87,-7865 }, {  88,-7865 }, {  89,-7865 }, {  90,-7865 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-7865 }, {   0,   0 },
- {  97,-7865 }, {  98,-7865 }, {  99,-7865 }, { 100,-7865 }, { 101,-7865 },
- { 102,-7865 }, { 103,-7865 }, { 104,-7865 }, { 105,-7865 }, { 106,-7865 },
- { 107,-7865 }, { 108,-7865 }, { 109,-7865 }, { 110,-7865 }, { 111,-7865 },
- { 112,-7865 }, { 113,-7865 }, { 114,-7865 }, { 115,-7865 }, { 116,-7865 },
- { 117,-7865 }, { 118,-7865 }, { 119,-7865 }, { 120,-7865 }, { 121,-7865 },
- { 122,-7865 }, {   0,   0 }, { 124,-7890 }, { 125, 911 }, { 126, 911 },
- { 127,-7865 }, { 128,-7865 }, { 129,-7865 }, { 130,-7865 }, { 131,-7865 },
- { 132,-7865 }, { 133,-7865 }, { 134,-7865 }, { 135,-7865 }, { 136,-7865 },
-
- { 137,-7865 }, { 138,-7865 }, { 139,-7865 }, { 140,-7865 }, { 141,-7865 },
- { 142,-7865 }, { 143,-7865 }, { 144,-7865 }, { 145,-7865 }, { 146,-7865 },
- { 147,-7865 }, { 148,-7865 }, { 149,-7865 }, { 150,-7865 }, { 151,-7865 },
- { 152,-7865 }, { 153,-7865 }, { 154,-7865 }, { 155,-7865 }, { 156,-7865 },
- { 157,-7865 }, { 158,-7865 }, { 159,-7865 }, { 160,-7865 }, { 161,-7865 },
- { 162,-7865 }, { 163,-7865 }, { 164,-7865 }, { 165,-7865 }, { 166,-7865 },
- { 167,-7865 }, { 168,-7865 }, { 169,-7865 }, { 170,-7865 }, { 171,-7865 },
- { 172,-7865 }, { 173,-7865 }, { 174,-7865 }, { 175,-7865 }, { 176,-7865 },
- { 177,-7865 }, { 178,-7865 }, { 179,-7865 }, { 180,-7865 }, { 181,-7865 },
- { 182,-7865 }, { 183,-7865 }, { 184,-7865 }, { 185,-7865 }, { 186,-7865 },
-
- { 187,-7865 }, { 188,-7865 }, { 189,-7865 }, { 190,-7865 }, { 191,-7865 },
- { 192,-7865 }, { 193,-7865 }, { 194,-7865 }, { 195,-7865 }, { 196,-7865 },
- { 197,-7865 }, { 198,-7865 }, { 199,-7865 }, { 200,-7865 }, { 201,-7865 },
- { 202,-7865 }, { 203,-7865 }, { 204,-7865 }, { 205,-7865 }, { 206,-7865 },
- { 207,-7865 }, { 208,-7865 }, { 209,-7865 }, { 210,-7865 }, { 211,-7865 },
- { 212,-7865 }, { 213,-7865 }, { 214,-7865 }, { 215,-7865 }, { 216,-7865 },
- { 217,-7865 }, { 218,-7865 }, { 219,-7865 }, { 220,-7865 }, { 221,-7865 },
- { 222,-7865 }, { 223,-7865 }, { 224,-7865 }, { 225,-7865 }, { 226,-7865 },
- { 227,-7865 }, { 228,-7865 }, { 229,-7865 }, { 230,-7865 }, { 231,-7865 },
- { 232,-7865 }, { 233,-7865 }, { 234,-7865 }, { 235,-7865 }, { 236,-7865 },
-
- { 237,-7865 }, { 238,-7865 }, { 239,-7865 }, { 240,-7865 }, { 241,-7865 },
- { 242,-7865 }, { 243,-7865 }, { 244,-7865 }, { 245,-7865 }, { 246,-7865 },
- { 247,-7865 }, { 248,-7865 }, { 249,-7865 }, { 250,-7865 }, { 251,-7865 },
- { 252,-7865 }, { 253,-7865 }, { 254,-7865 }, { 255,-7865 }, { 256,-7865 },
- {   0,   0 }, {   0,3911 }, {   1,-8123 }, {   2,-8123 }, {   3,-8123 },
- {   4,-8123 }, {   5,-8123 }, {   6,-8123 }, {   7,-8123 }, {   8,-8123 },
- {   9,-8148 }, {  10,-8148 }, {  11,-8123 }, {  12,-8123 }, {  13,-8148 },
- {  14,-8123 }, {  15,-8123 }, {  16,-8123 }, {  17,-8123 }, {  18,-8123 },
- {  19,-8123 }, {  20,-8123 }, {  21,-8123 }, {  22,-8123 }, {  23,-8123 },
- {  24,-8123 }, {  25,-8123 }, {  26,-8123 }, {  27,-8123 }, {  28,-8123 },
-
- {  29,-8123 }, {  30,-8123 }, {  31,-8123 }, {  32,-8148 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-8123 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-8148 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-8123 }, {  46,-8148 }, {  47,-8148 }, {  48,-8123 },
- {  49,-8123 }, {  50,-8123 }, {  51,-8123 }, {  52,-8123 }, {  53,-8123 },
- {  54,-8123 }, {  55,-8123 }, {  56,-8123 }, {  57,-8123 }, {  58,-8123 },
- {   0,   0 }, {   0,   0 }, {  61,-8148 }, {   0,   0 }, {  63,-8123 },
- {   0,   0 }, {  65,-8123 }, {  66,-8123 }, {  67,-8123 }, {  68,-8123 },
- {  69,-8123 }, {  70,-8123 }, {  71,-8123 }, {  72,-8123 }, {  73,-8123 },
- {  74,-8123 }, {  75,-8123 }, {  76,-8123 }, {  77,-8123 }, {  78,-8123 },
-
- {  79,-8123 }, {  80,-8123 }, {  81,-8123 }, {  82,-8123 }, {  83,-8123 },
- {  84,-8123 }, {  85,-8123 }, {  86,-8123 }, {  87,-8123 }, {  88,-8123 },
- {  89,-8123 }, {  90,-8123 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-8123 }, {   0,   0 }, {  97,-8123 }, {  98,-8123 },
- {  99,-8123 }, { 100,-8123 }, { 101,-8123 }, { 102, 932 }, { 103,-8123 },
- { 104,-8123 }, { 105,-8123 }, { 106,-8123 }, { 107,-8123 }, { 108,-8123 },
- { 109,-8123 }, { 110,-8123 }, { 111,-8123 }, { 112,-8123 }, { 113,-8123 },
- { 114,-8123 }, { 115,-8123 }, { 116,-8123 }, { 117,-8123 }, { 118,-8123 },
- { 119,-8123 }, { 120,-8123 }, { 121,-8123 }, { 122,-8123 }, {   0,   0 },
- { 124,-8148 }, { 125,-8148 }, { 126,-8148 }, { 127,-8123 }, { 128,-8123 },
-
- { 129,-8123 }, { 130,-8123 }, { 131,-8123 }, { 132,-8123 }, { 133,-8123 },
- { 134,-8123 }, { 135,-8123 }, { 136,-8123 }, { 137,-8123 }, { 138,-8123 },
- { 139,-8123 }, { 140,-8123 }, { 141,-8123 }, { 142,-8123 }, { 143,-8123 },
- { 144,-8123 }, { 145,-8123 }, { 146,-8123 }, { 147,-8123 }, { 148,-8123 },
- { 149,-8123 }, { 150,-8123 }, { 151,-8123 }, { 152,-8123 }, { 153,-8123 },
- { 154,-8123 }, { 155,-8123 }, { 156,-8123 }, { 157,-8123 }, { 158,-8123 },
- { 159,-8123 }, { 160,-8123 }, { 161,-8123 }, { 162,-8123 }, { 163,-8123 },
- { 164,-8123 }, { 165,-8123 }, { 166,-8123 }, { 167,-8123 }, { 168,-8123 },
- { 169,-8123 }, { 170,-8123 }, { 171,-8123 }, { 172,-8123 }, { 173,-8123 },
- { 174,-8123 }, { 175,-8123 }, { 176,-8123 }, { 177,-8123 }, { 178,-8123 },
-
- { 179,-8123 }, { 180,-8123 }, { 181,-8123 }, { 182,-8123 }, { 183,-8123 },
- { 184,-8123 }, { 185,-8123 }, { 186,-8123 }, { 187,-8123 }, { 188,-8123 },
- { 189,-8123 }, { 190,-8123 }, { 191,-8123 }, { 192,-8123 }, { 193,-8123 },
- { 194,-8123 }, { 195,-8123 }, { 196,-8123 }, { 197,-8123 }, { 198,-8123 },
- { 199,-8123 }, { 200,-8123 }, { 201,-8123 }, { 202,-8123 }, { 203,-8123 },
- { 204,-8123 }, { 205,-8123 }, { 206,-8123 }, { 207,-8123 }, { 208,-8123 },
- { 209,-8123 }, { 210,-8123 }, { 211,-8123 }, { 212,-8123 }, { 213,-8123 },
- { 214,-8123 }, { 215,-8123 }, { 216,-8123 }, { 217,-8123 }, { 218,-8123 },
- { 219,-8123 }, { 220,-8123 }, { 221,-8123 }, { 222,-8123 }, { 223,-8123 },
- { 224,-8123 }, { 225,-8123 }, { 226,-8123 }, { 227,-8123 }, { 228,-8123 },
-
- { 229,-8123 }, { 230,-8123 }, { 231,-8123 }, { 232,-8123 }, { 233,-8123 },
- { 234,-8123 }, { 235,-8123 }, { 236,-8123 }, { 237,-8123 }, { 238,-8123 },
- { 239,-8123 }, { 240,-8123 }, { 241,-8123 }, { 242,-8123 }, { 243,-8123 },
- { 244,-8123 }, { 245,-8123 }, { 246,-8123 }, { 247,-8123 }, { 248,-8123 },
- { 249,-8123 }, { 250,-8123 }, { 251,-8123 }, { 252,-8123 }, { 253,-8123 },
- { 254,-8123 }, { 255,-8123 }, { 256,-8123 }, {   0,   0 }, {   0,3653 },
- {   0,   0 }, {   0,3651 }, {   0,   0 }, {   0,3649 }, {   0,   0 },
- {   0,3647 }, {   0,   0 }, {   0,3645 }, {   0,  16 }, {   0,3643 },
- {   0,  26 }, {   0,3641 }, {   0,  17 }, {   0,3639 }, {   0,  36 },
- {   0,3637 }, {   0,   0 }, {   0,3635 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,1039 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 115,   0 },
- { 108, 932 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- { 115, 932 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,   2 },
- { 126,   4 }, { 125, 934 }, {   0,   0 }, { 125,  -2 }, {   0,   0 },
- {   0,3522 }, {   1, 811 }, {   2, 811 }, {   3, 811 }, {   4, 811 },
- {   5, 811 }, {   6, 811 }, {   7, 811 }, {   8, 811 }, {   9, 811 },
- {  10, 811 }, {  11, 811 }, {  12, 811 }, {  13, 811 }, {  14, 811 },
- {  15, 811 }, {  16, 811 }, {  17, 811 }, {  18, 811 }, {  19, 811 },
- {  20, 811 }, {  21, 811 }, {  22, 811 }, {  23, 811 }, {  24, 811 },
- {  25, 811 }, {  26, 811 }, {  27, 811 }, {  28, 811 }, {  29, 811 },
- {  30, 811 }, {  31, 811 }, {  32, 811 }, {  33, 811 }, {  34, 811 },
- {  35, 811 }, {  36, 811 }, {  37, 811 }, {  38, 811 }, {  39, 811 },
-
- {  40, 811 }, {  41, 811 }, {  42, 811 }, {  43, 811 }, {  44, 811 },
- {  45, 811 }, {  46, 811 }, {  47,1184 }, {  48, 811 }, {  49, 811 },
- {  50, 811 }, {  51, 811 }, {  52, 811 }, {  53, 811 }, {  54, 811 },
- {  55, 811 }, {  56, 811 }, {  57, 811 }, {  58, 811 }, {  59, 811 },
- {  60, 811 }, {  61, 811 }, {  62, 811 }, {  63, 811 }, {  64, 811 },
- {  65, 811 }, {  66, 811 }, {  67, 811 }, {  68, 811 }, {  69, 811 },
- {  70, 811 }, {  71, 811 }, {  72, 811 }, {  73, 811 }, {  74, 811 },
- {  75, 811 }, {  76, 811 }, {  77, 811 }, {  78, 811 }, {  79, 811 },
- {  80, 811 }, {  81, 811 }, {  82, 811 }, {  83, 811 }, {  84, 811 },
- {  85, 811 }, {  86, 811 }, {  87, 811 }, {  88, 811 }, {  89, 811 },
-
- {  90, 811 }, {  91, 811 }, {  92, 811 }, {  93, 811 }, {  94, 811 },
- {  95, 811 }, {  96, 811 }, {  97, 811 }, {  98, 811 }, {  99, 811 },
- { 100, 811 }, { 101, 811 }, { 102, 811 }, { 103, 811 }, { 104, 811 },
- { 105, 811 }, { 106, 811 }, { 107, 811 }, { 108, 811 }, { 109, 811 },
- { 110, 811 }, { 111, 811 }, { 112, 811 }, { 113, 811 }, { 114, 811 },
- { 115, 811 }, { 116, 811 }, { 117, 811 }, { 118, 811 }, { 119, 811 },
- { 120, 811 }, { 121, 811 }, { 122, 811 }, { 123, 811 }, { 124, 811 },
- { 125, 811 }, { 126, 811 }, { 127, 811 }, { 128, 811 }, { 129, 811 },
- { 130, 811 }, { 131, 811 }, { 132, 811 }, { 133, 811 }, { 134, 811 },
- { 135, 811 }, { 136, 811 }, { 137, 811 }, { 138, 811 }, { 139, 811 },
-
- { 140, 811 }, { 141, 811 }, { 142, 811 }, { 143, 811 }, { 144, 811 },
- { 145, 811 }, { 146, 811 }, { 147, 811 }, { 148, 811 }, { 149, 811 },
- { 150, 811 }, { 151, 811 }, { 152, 811 }, { 153, 811 }, { 154, 811 },
- { 155, 811 }, { 156, 811 }, { 157, 811 }, { 158, 811 }, { 159, 811 },
- { 160, 811 }, { 161, 811 }, { 162, 811 }, { 163, 811 }, { 164, 811 },
- { 165, 811 }, { 166, 811 }, { 167, 811 }, { 168, 811 }, { 169, 811 },
- { 170, 811 }, { 171, 811 }, { 172, 811 }, { 173, 811 }, { 174, 811 },
- { 175, 811 }, { 176, 811 }, { 177, 811 }, { 178, 811 }, { 179, 811 },
- { 180, 811 }, { 181, 811 }, { 182, 811 }, { 183, 811 }, { 184, 811 },
- { 185, 811 }, { 186, 811 }, { 187, 811 }, { 188, 811 }, { 189, 811 },
-
- { 190, 811 }, { 191, 811 }, { 192, 811 }, { 193, 811 }, { 194, 811 },
- { 195, 811 }, { 196, 811 }, { 197, 811 }, { 198, 811 }, { 199, 811 },
- { 200, 811 }, { 201, 811 }, { 202, 811 }, { 203, 811 }, { 204, 811 },
- { 205, 811 }, { 206, 811 }, { 207, 811 }, { 208, 811 }, { 209, 811 },
- { 210, 811 }, { 211, 811 }, { 212, 811 }, { 213, 811 }, { 214, 811 },
- { 215, 811 }, { 216, 811 }, { 217, 811 }, { 218, 811 }, { 219, 811 },
- { 220, 811 }, { 221, 811 }, { 222, 811 }, { 223, 811 }, { 224, 811 },
- { 225, 811 }, { 226, 811 }, { 227, 811 }, { 228, 811 }, { 229, 811 },
- { 230, 811 }, { 231, 811 }, { 232, 811 }, { 233, 811 }, { 234, 811 },
- { 235, 811 }, { 236, 811 }, { 237, 811 }, { 238, 811 }, { 239, 811 },
-
- { 240, 811 }, { 241, 811 }, { 242, 811 }, { 243, 811 }, { 244, 811 },
- { 245, 811 }, { 246, 811 }, { 247, 811 }, { 248, 811 }, { 249, 811 },
- { 250, 811 }, { 251, 811 }, { 252, 811 }, { 253, 811 }, { 254, 811 },
- { 255, 811 }, { 256, 811 }, {   0,   1 }, {   0,3264 }, {   0,   1 },
- {   0,3262 }, {   0,  46 }, {   0,3260 }, {   0,  43 }, {   0,3258 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,3237 }, {   1,-8797 }, {   2,-8797 }, {   3,-8797 }, {   4,-8797 },
-
- {   5,-8797 }, {   6,-8797 }, {   7,-8797 }, {   8,-8797 }, {   9, 530 },
- {  10, 530 }, {  11,-8797 }, {  12,-8797 }, {  13, 530 }, {  14,-8797 },
- {  15,-8797 }, {  16,-8797 }, {  17,-8797 }, {  18,-8797 }, {  19,-8797 },
- {  20,-8797 }, {  21,-8797 }, {  22,-8797 }, {  23,-8797 }, {  24,-8797 },
- {  25,-8797 }, {  26,-8797 }, {  27,-8797 }, {  28,-8797 }, {  29,-8797 },
- {  30,-8797 }, {  31,-8797 }, {  32, 530 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-8797 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41, 530 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-8797 }, {  46,-8822 }, {  47,-8822 }, {  48,-8797 }, {  49,-8797 },
- {  50,-8797 }, {  51,-8797 }, {  52,-8797 }, {  53,-8797 }, {  54,-8797 },
-
- {  55,-8797 }, {  56,-8797 }, {  57,-8797 }, {  58,-8797 }, {   0,   0 },
- {   0,   0 }, {  61,-8822 }, {   0,   0 }, {  63,-8797 }, {   0,   0 },
- {  65,-8797 }, {  66,-8797 }, {  67,-8797 }, {  68,-8797 }, {  69,-8797 },
- {  70,-8797 }, {  71,-8797 }, {  72,-8797 }, {  73,-8797 }, {  74,-8797 },
- {  75,-8797 }, {  76,-8797 }, {  77,-8797 }, {  78,-8797 }, {  79,-8797 },
- {  80,-8797 }, {  81,-8797 }, {  82,-8797 }, {  83,-8797 }, {  84,-8797 },
- {  85,-8797 }, {  86,-8797 }, {  87,-8797 }, {  88,-8797 }, {  89,-8797 },
- {  90,-8797 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-8797 }, { 123, 555 }, {  97,-8797 }, {  98,-8797 }, {  99,-8797 },
- { 100,-8797 }, { 101,-8797 }, { 102,-8797 }, { 103,-8797 }, { 104,-8797 },
-
- { 105,-8797 }, { 106,-8797 }, { 107,-8797 }, { 108,-8797 }, { 109,-8797 },
- { 110,-8797 }, { 111,-8797 }, { 112,-8797 }, { 113,-8797 }, { 114,-8797 },
- { 115,-8797 }, { 116,-8797 }, { 117,-8797 }, { 118,-8797 }, { 119,-8797 },
- { 120,-8797 }, { 121,-8797 }, { 122,-8797 }, {   0,   0 }, { 124,-8822 },
- { 125, 530 }, { 126, 530 }, { 127,-8797 }, { 128,-8797 }, { 129,-8797 },
- { 130,-8797 }, { 131,-8797 }, { 132,-8797 }, { 133,-8797 }, { 134,-8797 },
- { 135,-8797 }, { 136,-8797 }, { 137,-8797 }, { 138,-8797 }, { 139,-8797 },
- { 140,-8797 }, { 141,-8797 }, { 142,-8797 }, { 143,-8797 }, { 144,-8797 },
- { 145,-8797 }, { 146,-8797 }, { 147,-8797 }, { 148,-8797 }, { 149,-8797 },
- { 150,-8797 }, { 151,-8797 }, { 152,-8797 }, { 153,-8797 }, { 154,-8797 },
-
- { 155,-8797 }, { 156,-8797 }, { 157,-8797 }, { 158,-8797 }, { 159,-8797 },
- { 160,-8797 }, { 161,-8797 }, { 162,-8797 }, { 163,-8797 }, { 164,-8797 },
- { 165,-8797 }, { 166,-8797 }, { 167,-8797 }, { 168,-8797 }, { 169,-8797 },
- { 170,-8797 }, { 171,-8797 }, { 172,-8797 }, { 173,-8797 }, { 174,-8797 },
- { 175,-8797 }, { 176,-8797 }, { 177,-8797 }, { 178,-8797 }, { 179,-8797 },
- { 180,-8797 }, { 181,-8797 }, { 182,-8797 }, { 183,-8797 }, { 184,-8797 },
- { 185,-8797 }, { 186,-8797 }, { 187,-8797 }, { 188,-8797 }, { 189,-8797 },
- { 190,-8797 }, { 191,-8797 }, { 192,-8797 }, { 193,-8797 }, { 194,-8797 },
- { 195,-8797 }, { 196,-8797 }, { 197,-8797 }, { 198,-8797 }, { 199,-8797 },
- { 200,-8797 }, { 201,-8797 }, { 202,-8797 }, { 203,-8797 }, { 204,-8797 },
-
- { 205,-8797 }, { 206,-8797 }, { 207,-8797 }, { 208,-8797 }, { 209,-8797 },
- { 210,-8797 }, { 211,-8797 }, { 212,-8797 }, { 213,-8797 }, { 214,-8797 },
- { 215,-8797 }, { 216,-8797 }, { 217,-8797 }, { 218,-8797 }, { 219,-8797 },
- { 220,-8797 }, { 221,-8797 }, { 222,-8797 }, { 223,-8797 }, { 224,-8797 },
- { 225,-8797 }, { 226,-8797 }, { 227,-8797 }, { 228,-8797 }, { 229,-8797 },
- { 230,-8797 }, { 231,-8797 }, { 232,-8797 }, { 233,-8797 }, { 234,-8797 },
- { 235,-8797 }, { 236,-8797 }, { 237,-8797 }, { 238,-8797 }, { 239,-8797 },
- { 240,-8797 }, { 241,-8797 }, { 242,-8797 }, { 243,-8797 }, { 244,-8797 },
- { 245,-8797 }, { 246,-8797 }, { 247,-8797 }, { 248,-8797 }, { 249,-8797 },
- { 250,-8797 }, { 251,-8797 }, { 252,-8797 }, { 253,-8797 }, { 254,-8797 },
-
- { 255,-8797 }, { 256,-8797 }, {   0,   0 }, {   0,2979 }, {   1,-9055 },
- {   2,-9055 }, {   3,-9055 }, {   4,-9055 }, {   5,-9055 }, {   6,-9055 },
- {   7,-9055 }, {   8,-9055 }, {   9,-9080 }, {  10,-9080 }, {  11,-9055 },
- {  12,-9055 }, {  13,-9080 }, {  14,-9055 }, {  15,-9055 }, {  16,-9055 },
- {  17,-9055 }, {  18,-9055 }, {  19,-9055 }, {  20,-9055 }, {  21,-9055 },
- {  22,-9055 }, {  23,-9055 }, {  24,-9055 }, {  25,-9055 }, {  26,-9055 },
- {  27,-9055 }, {  28,-9055 }, {  29,-9055 }, {  30,-9055 }, {  31,-9055 },
- {  32,-9080 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-9055 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-9080 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-9055 }, {  46,-9080 },
-
- {  47,-9080 }, {  48,-9055 }, {  49,-9055 }, {  50,-9055 }, {  51,-9055 },
- {  52,-9055 }, {  53,-9055 }, {  54,-9055 }, {  55,-9055 }, {  56,-9055 },
- {  57,-9055 }, {  58,-9055 }, {   0,   0 }, {   0,   0 }, {  61,-9080 },
- {   0,   0 }, {  63,-9055 }, {   0,   0 }, {  65,-9055 }, {  66,-9055 },
- {  67,-9055 }, {  68,-9055 }, {  69,-9055 }, {  70,-9055 }, {  71,-9055 },
- {  72,-9055 }, {  73,-9055 }, {  74,-9055 }, {  75,-9055 }, {  76,-9055 },
- {  77,-9055 }, {  78,-9055 }, {  79,-9055 }, {  80,-9055 }, {  81,-9055 },
- {  82,-9055 }, {  83,-9055 }, {  84,-9055 }, {  85,-9055 }, {  86,-9055 },
- {  87,-9055 }, {  88,-9055 }, {  89,-9055 }, {  90,-9055 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-9055 }, {   0,   0 },
-
- {  97,-9055 }, {  98,-9055 }, {  99,-9055 }, { 100,-9055 }, { 101,-9055 },
- { 102,-9055 }, { 103,-9055 }, { 104,-9055 }, { 105, 899 }, { 106,-9055 },
- { 107,-9055 }, { 108,-9055 }, { 109,-9055 }, { 110,-9055 }, { 111,-9055 },
- { 112,-9055 }, { 113,-9055 }, { 114,-9055 }, { 115,-9055 }, { 116,-9055 },
- { 117,-9055 }, { 118,-9055 }, { 119,-9055 }, { 120,-9055 }, { 121,-9055 },
- { 122,-9055 }, {   0,   0 }, { 124,-9080 }, { 125,-9080 }, { 126,-9080 },
- { 127,-9055 }, { 128,-9055 }, { 129,-9055 }, { 130,-9055 }, { 131,-9055 },
- { 132,-9055 }, { 133,-9055 }, { 134,-9055 }, { 135,-9055 }, { 136,-9055 },
- { 137,-9055 }, { 138,-9055 }, { 139,-9055 }, { 140,-9055 }, { 141,-9055 },
- { 142,-9055 }, { 143,-9055 }, { 144,-9055 }, { 145,-9055 }, { 146,-9055 },
-
- { 147,-9055 }, { 148,-9055 }, { 149,-9055 }, { 150,-9055 }, { 151,-9055 },
- { 152,-9055 }, { 153,-9055 }, { 154,-9055 }, { 155,-9055 }, { 156,-9055 },
- { 157,-9055 }, { 158,-9055 }, { 159,-9055 }, { 160,-9055 }, { 161,-9055 },
- { 162,-9055 }, { 163,-9055 }, { 164,-9055 }, { 165,-9055 }, { 166,-9055 },
- { 167,-9055 }, { 168,-9055 }, { 169,-9055 }, { 170,-9055 }, { 171,-9055 },
- { 172,-9055 }, { 173,-9055 }, { 174,-9055 }, { 175,-9055 }, { 176,-9055 },
- { 177,-9055 }, { 178,-9055 }, { 179,-9055 }, { 180,-9055 }, { 181,-9055 },
- { 182,-9055 }, { 183,-9055 }, { 184,-9055 }, { 185,-9055 }, { 186,-9055 },
- { 187,-9055 }, { 188,-9055 }, { 189,-9055 }, { 190,-9055 }, { 191,-9055 },
- { 192,-9055 }, { 193,-9055 }, { 194,-9055 }, { 195,-9055 }, { 196,-9055 },
-
- { 197,-9055 }, { 198,-9055 }, { 199,-9055 }, { 200,-9055 }, { 201,-9055 },
- { 202,-9055 }, { 203,-9055 }, { 204,-9055 }, { 205,-9055 }, { 206,-9055 },
- { 207,-9055 }, { 208,-9055 }, { 209,-9055 }, { 210,-9055 }, { 211,-9055 },
- { 212,-9055 }, { 213,-9055 }, { 214,-9055 }, { 215,-9055 }, { 216,-9055 },
- { 217,-9055 }, { 218,-9055 }, { 219,-9055 }, { 220,-9055 }, { 221,-9055 },
- { 222,-9055 }, { 223,-9055 }, { 224,-9055 }, { 225,-9055 }, { 226,-9055 },
- { 227,-9055 }, { 228,-9055 }, { 229,-9055 }, { 230,-9055 }, { 231,-9055 },
- { 232,-9055 }, { 233,-9055 }, { 234,-9055 }, { 235,-9055 }, { 236,-9055 },
- { 237,-9055 }, { 238,-9055 }, { 239,-9055 }, { 240,-9055 }, { 241,-9055 },
- { 242,-9055 }, { 243,-9055 }, { 244,-9055 }, { 245,-9055 }, { 246,-9055 },
-
- { 247,-9055 }, { 248,-9055 }, { 249,-9055 }, { 250,-9055 }, { 251,-9055 },
- { 252,-9055 }, { 253,-9055 }, { 254,-9055 }, { 255,-9055 }, { 256,-9055 },
- {   0,   0 }, {   0,2721 }, {   0,  28 }, {   0,2719 }, {   0,  22 },
- {   0,2717 }, {   0,   0 }, {   0,2715 }, {   0,   0 }, {   0,2713 },
- {   0,   8 }, {   0,2711 }, {   0,   1 }, {   0,2709 }, {   0,  44 },
- {   0,2707 }, {   0,   0 }, {   0,2705 }, {   0,   0 }, {   0,2703 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 101, 893 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 115,  16 }, {   0,   0 }, { 101,2043 }, {   0,   0 },
- { 101,2049 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 115,  10 },
- {   0,   0 }, {   0,2596 }, {   1, 902 }, {   2, 902 }, {   3, 902 },
- {   4, 902 }, {   5, 902 }, {   6, 902 }, {   7, 902 }, {   8, 902 },
- {   9, 902 }, {  10, 902 }, {  11, 902 }, {  12, 902 }, {  13, 902 },
-
- {  14, 902 }, {  15, 902 }, {  16, 902 }, {  17, 902 }, {  18, 902 },
- {  19, 902 }, {  20, 902 }, {  21, 902 }, {  22, 902 }, {  23, 902 },
- {  24, 902 }, {  25, 902 }, {  26, 902 }, {  27, 902 }, {  28, 902 },
- {  29, 902 }, {  30, 902 }, {  31, 902 }, {  32, 902 }, {  33, 902 },
- {  34, 902 }, {  35, 902 }, {  36, 902 }, {  37, 902 }, {  38, 902 },
- {  39, 902 }, {  40, 902 }, {  41, 902 }, {  42, 902 }, {  43, 902 },
- {  44, 902 }, {  45,1160 }, {  46, 902 }, {  47, 902 }, {  48, 902 },
- {  49, 902 }, {  50, 902 }, {  51, 902 }, {  52, 902 }, {  53, 902 },
- {  54, 902 }, {  55, 902 }, {  56, 902 }, {  57, 902 }, {  58, 902 },
- {  59, 902 }, {  60, 902 }, {  61, 902 }, {  62, 902 }, {  63, 902 },
-
- {  64, 902 }, {  65, 902 }, {  66, 902 }, {  67, 902 }, {  68, 902 },
- {  69, 902 }, {  70, 902 }, {  71, 902 }, {  72, 902 }, {  73, 902 },
- {  74, 902 }, {  75, 902 }, {  76, 902 }, {  77, 902 }, {  78, 902 },
- {  79, 902 }, {  80, 902 }, {  81, 902 }, {  82, 902 }, {  83, 902 },
- {  84, 902 }, {  85, 902 }, {  86, 902 }, {  87, 902 }, {  88, 902 },
- {  89, 902 }, {  90, 902 }, {  91, 902 }, {  92, 902 }, {  93, 902 },
- {  94, 902 }, {  95, 902 }, {  96, 902 }, {  97, 902 }, {  98, 902 },
- {  99, 902 }, { 100, 902 }, { 101, 902 }, { 102, 902 }, { 103, 902 },
- { 104, 902 }, { 105, 902 }, { 106, 902 }, { 107, 902 }, { 108, 902 },
- { 109, 902 }, { 110, 902 }, { 111, 902 }, { 112, 902 }, { 113, 902 },
-
- { 114, 902 }, { 115, 902 }, { 116, 902 }, { 117, 902 }, { 118, 902 },
- { 119, 902 }, { 120, 902 }, { 121, 902 }, { 122, 902 }, { 123, 902 },
- { 124, 902 }, { 125, 902 }, { 126, 902 }, { 127, 902 }, { 128, 902 },
- { 129, 902 }, { 130, 902 }, { 131, 902 }, { 132, 902 }, { 133, 902 },
- { 134, 902 }, { 135, 902 }, { 136, 902 }, { 137, 902 }, { 138, 902 },
- { 139, 902 }, { 140, 902 }, { 141, 902 }, { 142, 902 }, { 143, 902 },
- { 144, 902 }, { 145, 902 }, { 146, 902 }, { 147, 902 }, { 148, 902 },
- { 149, 902 }, { 150, 902 }, { 151, 902 }, { 152, 902 }, { 153, 902 },
- { 154, 902 }, { 155, 902 }, { 156, 902 }, { 157, 902 }, { 158, 902 },
- { 159, 902 }, { 160, 902 }, { 161, 902 }, { 162, 902 }, { 163, 902 },
-
- { 164, 902 }, { 165, 902 }, { 166, 902 }, { 167, 902 }, { 168, 902 },
- { 169, 902 }, { 170, 902 }, { 171, 902 }, { 172, 902 }, { 173, 902 },
- { 174, 902 }, { 175, 902 }, { 176, 902 }, { 177, 902 }, { 178, 902 },
- { 179, 902 }, { 180, 902 }, { 181, 902 }, { 182, 902 }, { 183, 902 },
- { 184, 902 }, { 185, 902 }, { 186, 902 }, { 187, 902 }, { 188, 902 },
- { 189, 902 }, { 190, 902 }, { 191, 902 }, { 192, 902 }, { 193, 902 },
- { 194, 902 }, { 195, 902 }, { 196, 902 }, { 197, 902 }, { 198, 902 },
- { 199, 902 }, { 200, 902 }, { 201, 902 }, { 202, 902 }, { 203, 902 },
- { 204, 902 }, { 205, 902 }, { 206, 902 }, { 207, 902 }, { 208, 902 },
- { 209, 902 }, { 210, 902 }, { 211, 902 }, { 212, 902 }, { 213, 902 },
-
- { 214, 902 }, { 215, 902 }, { 216, 902 }, { 217, 902 }, { 218, 902 },
- { 219, 902 }, { 220, 902 }, { 221, 902 }, { 222, 902 }, { 223, 902 },
- { 224, 902 }, { 225, 902 }, { 226, 902 }, { 227, 902 }, { 228, 902 },
- { 229, 902 }, { 230, 902 }, { 231, 902 }, { 232, 902 }, { 233, 902 },
- { 234, 902 }, { 235, 902 }, { 236, 902 }, { 237, 902 }, { 238, 902 },
- { 239, 902 }, { 240, 902 }, { 241, 902 }, { 242, 902 }, { 243, 902 },
- { 244, 902 }, { 245, 902 }, { 246, 902 }, { 247, 902 }, { 248, 902 },
- { 249, 902 }, { 250, 902 }, { 251, 902 }, { 252, 902 }, { 253, 902 },
- { 254, 902 }, { 255, 902 }, { 256, 902 }, {   0,   0 }, {   0,2338 },
- {   1,1160 }, {   2,1160 }, {   3,1160 }, {   4,1160 }, {   5,1160 },
-
- {   6,1160 }, {   7,1160 }, {   8,1160 }, {   0,   0 }, {   0,   0 },
- {  11,1160 }, {  12,1160 }, {   0,   0 }, {  14,1160 }, {  15,1160 },
- {  16,1160 }, {  17,1160 }, {  18,1160 }, {  19,1160 }, {  20,1160 },
- {  21,1160 }, {  22,1160 }, {  23,1160 }, {  24,1160 }, {  25,1160 },
- {  26,1160 }, {  27,1160 }, {  28,1160 }, {  29,1160 }, {  30,1160 },
- {  31,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,1160 },
- {   0,   0 }, {   0,   0 }, {  48,1160 }, {  49,1160 }, {  50,1160 },
- {  51,1160 }, {  52,1160 }, {  53,1160 }, {  54,1160 }, {  55,1160 },
-
- {  56,1160 }, {  57,1160 }, {  58,1160 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  63,1160 }, {   0,   0 }, {  65,1160 },
- {  66,1160 }, {  67,1160 }, {  68,1160 }, {  69,1160 }, {  70,1160 },
- {  71,1160 }, {  72,1160 }, {  73,1160 }, {  74,1160 }, {  75,1160 },
- {  76,1160 }, {  77,1160 }, {  78,1160 }, {  79,1160 }, {  80,1160 },
- {  81,1160 }, {  82,1160 }, {  83,1160 }, {  84,1160 }, {  85,1160 },
- {  86,1160 }, {  87,1160 }, {  88,1160 }, {  89,1160 }, {  90,1160 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,1160 },
- {   0,   0 }, {  97,1160 }, {  98,1160 }, {  99,1160 }, { 100,1160 },
- { 101,1160 }, { 102,1160 }, { 103,1160 }, { 104,1160 }, { 105,1160 },
-
- { 106,1160 }, { 107,1160 }, { 108,1160 }, { 109,1160 }, { 110,1160 },
- { 111,1160 }, { 112,1160 }, { 113,1160 }, { 114,1160 }, { 115,1160 },
- { 116,1160 }, { 117,1160 }, { 118,1160 }, { 119,1160 }, { 120,1160 },
- { 121,1160 }, { 122,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 127,1160 }, { 128,1160 }, { 129,1160 }, { 130,1160 },
- { 131,1160 }, { 132,1160 }, { 133,1160 }, { 134,1160 }, { 135,1160 },
- { 136,1160 }, { 137,1160 }, { 138,1160 }, { 139,1160 }, { 140,1160 },
- { 141,1160 }, { 142,1160 }, { 143,1160 }, { 144,1160 }, { 145,1160 },
- { 146,1160 }, { 147,1160 }, { 148,1160 }, { 149,1160 }, { 150,1160 },
- { 151,1160 }, { 152,1160 }, { 153,1160 }, { 154,1160 }, { 155,1160 },
-
- { 156,1160 }, { 157,1160 }, { 158,1160 }, { 159,1160 }, { 160,1160 },
- { 161,1160 }, { 162,1160 }, { 163,1160 }, { 164,1160 }, { 165,1160 },
- { 166,1160 }, { 167,1160 }, { 168,1160 }, { 169,1160 }, { 170,1160 },
- { 171,1160 }, { 172,1160 }, { 173,1160 }, { 174,1160 }, { 175,1160 },
- { 176,1160 }, { 177,1160 }, { 178,1160 }, { 179,1160 }, { 180,1160 },
- { 181,1160 }, { 182,1160 }, { 183,1160 }, { 184,1160 }, { 185,1160 },
- { 186,1160 }, { 187,1160 }, { 188,1160 }, { 189,1160 }, { 190,1160 },
- { 191,1160 }, { 192,1160 }, { 193,1160 }, { 194,1160 }, { 195,1160 },
- { 196,1160 }, { 197,1160 }, { 198,1160 }, { 199,1160 }, { 200,1160 },
- { 201,1160 }, { 202,1160 }, { 203,1160 }, { 204,1160 }, { 205,1160 },
-
- { 206,1160 }, { 207,1160 }, { 208,1160 }, { 209,1160 }, { 210,1160 },
- { 211,1160 }, { 212,1160 }, { 213,1160 }, { 214,1160 }, { 215,1160 },
- { 216,1160 }, { 217,1160 }, { 218,1160 }, { 219,1160 }, { 220,1160 },
- { 221,1160 }, { 222,1160 }, { 223,1160 }, { 224,1160 }, { 225,1160 },
- { 226,1160 }, { 227,1160 }, { 228,1160 }, { 229,1160 }, { 230,1160 },
- { 231,1160 }, { 232,1160 }, { 233,1160 }, { 234,1160 }, { 235,1160 },
- { 236,1160 }, { 237,1160 }, { 238,1160 }, { 239,1160 }, { 240,1160 },
- { 241,1160 }, { 242,1160 }, { 243,1160 }, { 244,1160 }, { 245,1160 },
- { 246,1160 }, { 247,1160 }, { 248,1160 }, { 249,1160 }, { 250,1160 },
- { 251,1160 }, { 252,1160 }, { 253,1160 }, { 254,1160 }, { 255,1160 },
-
- { 256,1160 }, {   0,   0 }, {   0,2080 }, {   1,-9954 }, {   2,-9954 },
- {   3,-9954 }, {   4,-9954 }, {   5,-9954 }, {   6,-9954 }, {   7,-9954 },
- {   8,-9954 }, {   9,-9979 }, {  10,-9979 }, {  11,-9954 }, {  12,-9954 },
- {  13,-9979 }, {  14,-9954 }, {  15,-9954 }, {  16,-9954 }, {  17,-9954 },
- {  18,-9954 }, {  19,-9954 }, {  20,-9954 }, {  21,-9954 }, {  22,-9954 },
- {  23,-9954 }, {  24,-9954 }, {  25,-9954 }, {  26,-9954 }, {  27,-9954 },
- {  28,-9954 }, {  29,-9954 }, {  30,-9954 }, {  31,-9954 }, {  32,-9979 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-9954 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-9979 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-9954 }, {  46,-9979 }, {  47,-9979 },
-
- {  48,-9954 }, {  49,-9954 }, {  50,-9954 }, {  51,-9954 }, {  52,-9954 },
- {  53,-9954 }, {  54,-9954 }, {  55,-9954 }, {  56,-9954 }, {  57,-9954 },
- {  58,-9954 }, {   0,   0 }, {   0,   0 }, {  61,-9979 }, {   0,   0 },
- {  63,-9954 }, {   0,   0 }, {  65,-9954 }, {  66,-9954 }, {  67,-9954 },
- {  68,-9954 }, {  69,-9954 }, {  70,-9954 }, {  71,-9954 }, {  72,-9954 },
- {  73,-9954 }, {  74,-9954 }, {  75,-9954 }, {  76,-9954 }, {  77,-9954 },
- {  78,-9954 }, {  79,-9954 }, {  80,-9954 }, {  81,-9954 }, {  82,-9954 },
- {  83,-9954 }, {  84,-9954 }, {  85,-9954 }, {  86,-9954 }, {  87,-9954 },
- {  88,-9954 }, {  89,-9954 }, {  90,-9954 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-9954 }, {   0,   0 }, {  97,-9954 },
-
- {  98,-9954 }, {  99,-9954 }, { 100,-9954 }, { 101,-9954 }, { 102,-9954 },
- { 103,-9954 }, { 104,-9954 }, { 105,-9954 }, { 106,-9954 }, { 107,-9954 },
- { 108,-9954 }, { 109,-9954 }, { 110,1160 }, { 111,-9954 }, { 112,-9954 },
- { 113,-9954 }, { 114,-9954 }, { 115,-9954 }, { 116,-9954 }, { 117,-9954 },
- { 118,-9954 }, { 119,-9954 }, { 120,-9954 }, { 121,-9954 }, { 122,-9954 },
- {   0,   0 }, { 124,-9979 }, { 125,-9979 }, { 126,-9979 }, { 127,-9954 },
- { 128,-9954 }, { 129,-9954 }, { 130,-9954 }, { 131,-9954 }, { 132,-9954 },
- { 133,-9954 }, { 134,-9954 }, { 135,-9954 }, { 136,-9954 }, { 137,-9954 },
- { 138,-9954 }, { 139,-9954 }, { 140,-9954 }, { 141,-9954 }, { 142,-9954 },
- { 143,-9954 }, { 144,-9954 }, { 145,-9954 }, { 146,-9954 }, { 147,-9954 },
-
- { 148,-9954 }, { 149,-9954 }, { 150,-9954 }, { 151,-9954 }, { 152,-9954 },
- { 153,-9954 }, { 154,-9954 }, { 155,-9954 }, { 156,-9954 }, { 157,-9954 },
- { 158,-9954 }, { 159,-9954 }, { 160,-9954 }, { 161,-9954 }, { 162,-9954 },
- { 163,-9954 }, { 164,-9954 }, { 165,-9954 }, { 166,-9954 }, { 167,-9954 },
- { 168,-9954 }, { 169,-9954 }, { 170,-9954 }, { 171,-9954 }, { 172,-9954 },
- { 173,-9954 }, { 174,-9954 }, { 175,-9954 }, { 176,-9954 }, { 177,-9954 },
- { 178,-9954 }, { 179,-9954 }, { 180,-9954 }, { 181,-9954 }, { 182,-9954 },
- { 183,-9954 }, { 184,-9954 }, { 185,-9954 }, { 186,-9954 }, { 187,-9954 },
- { 188,-9954 }, { 189,-9954 }, { 190,-9954 }, { 191,-9954 }, { 192,-9954 },
- { 193,-9954 }, { 194,-9954 }, { 195,-9954 }, { 196,-9954 }, { 197,-9954 },
-
- { 198,-9954 }, { 199,-9954 }, { 200,-9954 }, { 201,-9954 }, { 202,-9954 },
- { 203,-9954 }, { 204,-9954 }, { 205,-9954 }, { 206,-9954 }, { 207,-9954 },
- { 208,-9954 }, { 209,-9954 }, { 210,-9954 }, { 211,-9954 }, { 212,-9954 },
- { 213,-9954 }, { 214,-9954 }, { 215,-9954 }, { 216,-9954 }, { 217,-9954 },
- { 218,-9954 }, { 219,-9954 }, { 220,-9954 }, { 221,-9954 }, { 222,-9954 },
- { 223,-9954 }, { 224,-9954 }, { 225,-9954 }, { 226,-9954 }, { 227,-9954 },
- { 228,-9954 }, { 229,-9954 }, { 230,-9954 }, { 231,-9954 }, { 232,-9954 },
- { 233,-9954 }, { 234,-9954 }, { 235,-9954 }, { 236,-9954 }, { 237,-9954 },
- { 238,-9954 }, { 239,-9954 }, { 240,-9954 }, { 241,-9954 }, { 242,-9954 },
- { 243,-9954 }, { 244,-9954 }, { 245,-9954 }, { 246,-9954 }, { 247,-9954 },
+ {   0,   0 }, {   0,6102 }, {   0,   0 }, {   0,6100 }, {   0,   1 },
+ {   0,6098 }, {   0,   4 }, {   0,6096 }, {   0,  48 }, {   0,6094 },
+ {   0,  42 }, {   0,6092 }, {   0,   0 }, {   0,6090 }, {   0,   0 },
+ {   0,6088 }, {   0,   0 }, {  10,   0 }, {   0,  21 }, {   0,6084 },
+ {  13,   0 }, {   0,  20 }, {   0,6081 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
- { 248,-9954 }, { 249,-9954 }, { 250,-9954 }, { 251,-9954 }, { 252,-9954 },
- { 253,-9954 }, { 254,-9954 }, { 255,-9954 }, { 256,-9954 }, {   0,  25 },
- {   0,1822 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,1162 },
- {  10,1162 }, {   0,   0 }, {   0,   0 }, {  13,1162 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,3111 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  32,1162 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 108,3111 }, {   0,   0 }, {   0,   0 }, { 123,2322 },
+ {   0,   0 }, { 123,2578 }, {   0,   0 }, { 123,2578 }, {   0,   4 },
+ {   0,5973 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
+ {  10,-123 }, {  11,   0 }, {  12,   0 }, {  13,-123 }, {  14,   0 },
+ {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
+
+ {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 },
+ {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 },
+ {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 },
+ {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 },
+ {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 },
+ {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 },
+ {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 },
+ {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 },
+ {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 },
+ {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 },
+
+ {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 },
+ {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 },
+ {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 },
+ {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 },
+ {  90,   0 }, {  91,   0 }, {   0,   0 }, {  93,   0 }, {  94,   0 },
+ {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 },
+ { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 },
+ { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 },
+ { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 },
+ { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 },
+
+ { 120,   0 }, { 121,   0 }, { 122,   0 }, {   0,   0 }, { 124,   0 },
+ { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 },
+ { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 },
+ { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 },
+ { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 },
+ { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 },
+ { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 },
+ { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 },
+ { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 },
+ { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 },
+
+ { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 },
+ { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 },
+ { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 },
+ { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 },
+ { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 },
+ { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 },
+ { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 },
+ { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 },
+ { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 },
+ { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 },
+
+ { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 },
+ { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 },
+ { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 },
+ { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 },
+ { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
+ { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
+ { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
+ { 255,   0 }, {   0,   4 }, {   0,5716 }, {   1,-257 }, {   2,-257 },
+ {   3,-257 }, {   4,-257 }, {   5,-257 }, {   6,-257 }, {   7,-257 },
+ {   8,-257 }, {   9,-257 }, {  10,-380 }, {  11,-257 }, {  12,-257 },
+
+ {  13,-380 }, {  14,-257 }, {  15,-257 }, {  16,-257 }, {  17,-257 },
+ {  18,-257 }, {  19,-257 }, {  20,-257 }, {  21,-257 }, {  22,-257 },
+ {  23,-257 }, {  24,-257 }, {  25,-257 }, {  26,-257 }, {  27,-257 },
+ {  28,-257 }, {  29,-257 }, {  30,-257 }, {  31,-257 }, {  32,-257 },
+ {  33,-257 }, {  34,-257 }, {  35,-257 }, {  36,-257 }, {  37,-257 },
+ {  38,-257 }, {  39,-257 }, {  40,-257 }, {  41,-257 }, {  42,-257 },
+ {  43,-257 }, {  44,-257 }, {  45,-257 }, {  46,-257 }, {  47,-257 },
+ {  48,-257 }, {  49,-257 }, {  50,-257 }, {  51,-257 }, {  52,-257 },
+ {  53,-257 }, {  54,-257 }, {  55,-257 }, {  56,-257 }, {  57,-257 },
+ {  58,-257 }, {  59,-257 }, {  60,-257 }, {  61,-257 }, {  62,-257 },
+
+ {  63,-257 }, {  64,-257 }, {  65,-257 }, {  66,-257 }, {  67,-257 },
+ {  68,-257 }, {  69,-257 }, {  70,-257 }, {  71,-257 }, {  72,-257 },
+ {  73,-257 }, {  74,-257 }, {  75,-257 }, {  76,-257 }, {  77,-257 },
+ {  78,-257 }, {  79,-257 }, {  80,-257 }, {  81,-257 }, {  82,-257 },
+ {  83,-257 }, {  84,-257 }, {  85,-257 }, {  86,-257 }, {  87,-257 },
+ {  88,-257 }, {  89,-257 }, {  90,-257 }, {  91,-257 }, {   0,   0 },
+ {  93,-257 }, {  94,-257 }, {  95,-257 }, {  96,-257 }, {  97,-257 },
+ {  98,-257 }, {  99,-257 }, { 100,-257 }, { 101,-257 }, { 102,-257 },
+ { 103,-257 }, { 104,-257 }, { 105,-257 }, { 106,-257 }, { 107,-257 },
+ { 108,-257 }, { 109,-257 }, { 110,-257 }, { 111,-257 }, { 112,-257 },
+
+ { 113,-257 }, { 114,-257 }, { 115,-257 }, { 116,-257 }, { 117,-257 },
+ { 118,-257 }, { 119,-257 }, { 120,-257 }, { 121,-257 }, { 122,-257 },
+ {   0,   0 }, { 124,-257 }, { 125,-257 }, { 126,-257 }, { 127,-257 },
+ { 128,-257 }, { 129,-257 }, { 130,-257 }, { 131,-257 }, { 132,-257 },
+ { 133,-257 }, { 134,-257 }, { 135,-257 }, { 136,-257 }, { 137,-257 },
+ { 138,-257 }, { 139,-257 }, { 140,-257 }, { 141,-257 }, { 142,-257 },
+ { 143,-257 }, { 144,-257 }, { 145,-257 }, { 146,-257 }, { 147,-257 },
+ { 148,-257 }, { 149,-257 }, { 150,-257 }, { 151,-257 }, { 152,-257 },
+ { 153,-257 }, { 154,-257 }, { 155,-257 }, { 156,-257 }, { 157,-257 },
+ { 158,-257 }, { 159,-257 }, { 160,-257 }, { 161,-257 }, { 162,-257 },
+
+ { 163,-257 }, { 164,-257 }, { 165,-257 }, { 166,-257 }, { 167,-257 },
+ { 168,-257 }, { 169,-257 }, { 170,-257 }, { 171,-257 }, { 172,-257 },
+ { 173,-257 }, { 174,-257 }, { 175,-257 }, { 176,-257 }, { 177,-257 },
+ { 178,-257 }, { 179,-257 }, { 180,-257 }, { 181,-257 }, { 182,-257 },
+ { 183,-257 }, { 184,-257 }, { 185,-257 }, { 186,-257 }, { 187,-257 },
+ { 188,-257 }, { 189,-257 }, { 190,-257 }, { 191,-257 }, { 192,-257 },
+ { 193,-257 }, { 194,-257 }, { 195,-257 }, { 196,-257 }, { 197,-257 },
+ { 198,-257 }, { 199,-257 }, { 200,-257 }, { 201,-257 }, { 202,-257 },
+ { 203,-257 }, { 204,-257 }, { 205,-257 }, { 206,-257 }, { 207,-257 },
+ { 208,-257 }, { 209,-257 }, { 210,-257 }, { 211,-257 }, { 212,-257 },
+
+ { 213,-257 }, { 214,-257 }, { 215,-257 }, { 216,-257 }, { 217,-257 },
+ { 218,-257 }, { 219,-257 }, { 220,-257 }, { 221,-257 }, { 222,-257 },
+ { 223,-257 }, { 224,-257 }, { 225,-257 }, { 226,-257 }, { 227,-257 },
+ { 228,-257 }, { 229,-257 }, { 230,-257 }, { 231,-257 }, { 232,-257 },
+ { 233,-257 }, { 234,-257 }, { 235,-257 }, { 236,-257 }, { 237,-257 },
+ { 238,-257 }, { 239,-257 }, { 240,-257 }, { 241,-257 }, { 242,-257 },
+ { 243,-257 }, { 244,-257 }, { 245,-257 }, { 246,-257 }, { 247,-257 },
+ { 248,-257 }, { 249,-257 }, { 250,-257 }, { 251,-257 }, { 252,-257 },
+ { 253,-257 }, { 254,-257 }, { 255,-257 }, {   0,   0 }, {   0,5459 },
+ {   1,-7721 }, {   2,-7721 }, {   3,-7721 }, {   4,-7721 }, {   5,-7721 },
+
+ {   6,-7721 }, {   7,-7721 }, {   8,-7721 }, {   9,-7746 }, {  10,-7746 },
+ {  11,-7721 }, {  12,-7721 }, {  13,-7746 }, {  14,-7721 }, {  15,-7721 },
+ {  16,-7721 }, {  17,-7721 }, {  18,-7721 }, {  19,-7721 }, {  20,-7721 },
+ {  21,-7721 }, {  22,-7721 }, {  23,-7721 }, {  24,-7721 }, {  25,-7721 },
+ {  26,-7721 }, {  27,-7721 }, {  28,-7721 }, {  29,-7721 }, {  30,-7721 },
+ {  31,-7721 }, {  32,-7746 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,-7721 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,-7746 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-7721 },
+ {  46,-7746 }, {  47,-7746 }, {  48,-7721 }, {  49,-7721 }, {  50,-7721 },
+ {  51,-7721 }, {  52,-7721 }, {  53,-7721 }, {  54,-7721 }, {  55,-7721 },
+
+ {  56,-7721 }, {  57,-7721 }, {  58,-7721 }, {   0,   0 }, {   0,   0 },
+ {  61,-7746 }, {   0,   0 }, {  63,-7721 }, {   0,   0 }, {  65,-7721 },
+ {  66,-7721 }, {  67,-7721 }, {  68,-7721 }, {  69,-7721 }, {  70,-7721 },
+ {  71,-7721 }, {  72,-7721 }, {  73,-7721 }, {  74,-7721 }, {  75,-7721 },
+ {  76,-7721 }, {  77,-7721 }, {  78,-7721 }, {  79,-7721 }, {  80,-7721 },
+ {  81,-7721 }, {  82,-7721 }, {  83,-7721 }, {  84,-7721 }, {  85,-7721 },
+ {  86,-7721 }, {  87,-7721 }, {  88,-7721 }, {  89,-7721 }, {  90,-7721 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-7721 },
+ {   0,   0 }, {  97,-7721 }, {  98,-7721 }, {  99,-7721 }, { 100,-7721 },
+ { 101,1964 }, { 102,-7721 }, { 103,-7721 }, { 104,-7721 }, { 105,-7721 },
+
+ { 106,-7721 }, { 107,-7721 }, { 108,-7721 }, { 109,-7721 }, { 110,-7721 },
+ { 111,-7721 }, { 112,-7721 }, { 113,-7721 }, { 114,-7721 }, { 115,-7721 },
+ { 116,-7721 }, { 117,-7721 }, { 118,-7721 }, { 119,-7721 }, { 120,-7721 },
+ { 121,-7721 }, { 122,-7721 }, {   0,   0 }, { 124,-7746 }, { 125,-7746 },
+ { 126,-7746 }, { 127,-7721 }, { 128,-7721 }, { 129,-7721 }, { 130,-7721 },
+ { 131,-7721 }, { 132,-7721 }, { 133,-7721 }, { 134,-7721 }, { 135,-7721 },
+ { 136,-7721 }, { 137,-7721 }, { 138,-7721 }, { 139,-7721 }, { 140,-7721 },
+ { 141,-7721 }, { 142,-7721 }, { 143,-7721 }, { 144,-7721 }, { 145,-7721 },
+ { 146,-7721 }, { 147,-7721 }, { 148,-7721 }, { 149,-7721 }, { 150,-7721 },
+ { 151,-7721 }, { 152,-7721 }, { 153,-7721 }, { 154,-7721 }, { 155,-7721 },
+
+ { 156,-7721 }, { 157,-7721 }, { 158,-7721 }, { 159,-7721 }, { 160,-7721 },
+ { 161,-7721 }, { 162,-7721 }, { 163,-7721 }, { 164,-7721 }, { 165,-7721 },
+ { 166,-7721 }, { 167,-7721 }, { 168,-7721 }, { 169,-7721 }, { 170,-7721 },
+ { 171,-7721 }, { 172,-7721 }, { 173,-7721 }, { 174,-7721 }, { 175,-7721 },
+ { 176,-7721 }, { 177,-7721 }, { 178,-7721 }, { 179,-7721 }, { 180,-7721 },
+ { 181,-7721 }, { 182,-7721 }, { 183,-7721 }, { 184,-7721 }, { 185,-7721 },
+ { 186,-7721 }, { 187,-7721 }, { 188,-7721 }, { 189,-7721 }, { 190,-7721 },
+ { 191,-7721 }, { 192,-7721 }, { 193,-7721 }, { 194,-7721 }, { 195,-7721 },
+ { 196,-7721 }, { 197,-7721 }, { 198,-7721 }, { 199,-7721 }, { 200,-7721 },
+ { 201,-7721 }, { 202,-7721 }, { 203,-7721 }, { 204,-7721 }, { 205,-7721 },
+
+ { 206,-7721 }, { 207,-7721 }, { 208,-7721 }, { 209,-7721 }, { 210,-7721 },
+ { 211,-7721 }, { 212,-7721 }, { 213,-7721 }, { 214,-7721 }, { 215,-7721 },
+ { 216,-7721 }, { 217,-7721 }, { 218,-7721 }, { 219,-7721 }, { 220,-7721 },
+ { 221,-7721 }, { 222,-7721 }, { 223,-7721 }, { 224,-7721 }, { 225,-7721 },
+ { 226,-7721 }, { 227,-7721 }, { 228,-7721 }, { 229,-7721 }, { 230,-7721 },
+ { 231,-7721 }, { 232,-7721 }, { 233,-7721 }, { 234,-7721 }, { 235,-7721 },
+ { 236,-7721 }, { 237,-7721 }, { 238,-7721 }, { 239,-7721 }, { 240,-7721 },
+ { 241,-7721 }, { 242,-7721 }, { 243,-7721 }, { 244,-7721 }, { 245,-7721 },
+ { 246,-7721 }, { 247,-7721 }, { 248,-7721 }, { 249,-7721 }, { 250,-7721 },
+ { 251,-7721 }, { 252,-7721 }, { 253,-7721 }, { 254,-7721 }, { 255,-7721 },
+
+ { 256,-7721 }, {   0,   0 }, {   0,5201 }, {   1,-7979 }, {   2,-7979 },
+ {   3,-7979 }, {   4,-7979 }, {   5,-7979 }, {   6,-7979 }, {   7,-7979 },
+ {   8,-7979 }, {   9,1683 }, {  10,1683 }, {  11,-7979 }, {  12,-7979 },
+ {  13,1683 }, {  14,-7979 }, {  15,-7979 }, {  16,-7979 }, {  17,-7979 },
+ {  18,-7979 }, {  19,-7979 }, {  20,-7979 }, {  21,-7979 }, {  22,-7979 },
+ {  23,-7979 }, {  24,-7979 }, {  25,-7979 }, {  26,-7979 }, {  27,-7979 },
+ {  28,-7979 }, {  29,-7979 }, {  30,-7979 }, {  31,-7979 }, {  32,1683 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-7979 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,1683 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,-7979 }, {  46,-8004 }, {  47,-8004 },
+
+ {  48,-7979 }, {  49,-7979 }, {  50,-7979 }, {  51,-7979 }, {  52,-7979 },
+ {  53,-7979 }, {  54,-7979 }, {  55,-7979 }, {  56,-7979 }, {  57,-7979 },
+ {  58,-7979 }, {   0,   0 }, {   0,   0 }, {  61,-8004 }, {   0,   0 },
+ {  63,-7979 }, {   0,   0 }, {  65,-7979 }, {  66,-7979 }, {  67,-7979 },
+ {  68,-7979 }, {  69,-7979 }, {  70,-7979 }, {  71,-7979 }, {  72,-7979 },
+ {  73,-7979 }, {  74,-7979 }, {  75,-7979 }, {  76,-7979 }, {  77,-7979 },
+ {  78,-7979 }, {  79,-7979 }, {  80,-7979 }, {  81,-7979 }, {  82,-7979 },
+ {  83,-7979 }, {  84,-7979 }, {  85,-7979 }, {  86,-7979 }, {  87,-7979 },
+ {  88,-7979 }, {  89,-7979 }, {  90,-7979 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,-7979 }, {   0,   0 }, {  97,-7979 },
+
+ {  98,-7979 }, {  99,-7979 }, { 100,-7979 }, { 101,-7979 }, { 102,-7979 },
+ { 103,-7979 }, { 104,-7979 }, { 105,-7979 }, { 106,-7979 }, { 107,-7979 },
+ { 108,-7979 }, { 109,-7979 }, { 110,-7979 }, { 111,-7979 }, { 112,-7979 },
+ { 113,-7979 }, { 114,-7979 }, { 115,-7979 }, { 116,-7979 }, { 117,-7979 },
+ { 118,-7979 }, { 119,-7979 }, { 120,-7979 }, { 121,-7979 }, { 122,-7979 },
+ {   0,   0 }, { 124,-8004 }, { 125,1683 }, { 126,1683 }, { 127,-7979 },
+ { 128,-7979 }, { 129,-7979 }, { 130,-7979 }, { 131,-7979 }, { 132,-7979 },
+ { 133,-7979 }, { 134,-7979 }, { 135,-7979 }, { 136,-7979 }, { 137,-7979 },
+ { 138,-7979 }, { 139,-7979 }, { 140,-7979 }, { 141,-7979 }, { 142,-7979 },
+ { 143,-7979 }, { 144,-7979 }, { 145,-7979 }, { 146,-7979 }, { 147,-7979 },
+
+ { 148,-7979 }, { 149,-7979 }, { 150,-7979 }, { 151,-7979 }, { 152,-7979 },
+ { 153,-7979 }, { 154,-7979 }, { 155,-7979 }, { 156,-7979 }, { 157,-7979 },
+ { 158,-7979 }, { 159,-7979 }, { 160,-7979 }, { 161,-7979 }, { 162,-7979 },
+ { 163,-7979 }, { 164,-7979 }, { 165,-7979 }, { 166,-7979 }, { 167,-7979 },
+ { 168,-7979 }, { 169,-7979 }, { 170,-7979 }, { 171,-7979 }, { 172,-7979 },
+ { 173,-7979 }, { 174,-7979 }, { 175,-7979 }, { 176,-7979 }, { 177,-7979 },
+ { 178,-7979 }, { 179,-7979 }, { 180,-7979 }, { 181,-7979 }, { 182,-7979 },
+ { 183,-7979 }, { 184,-7979 }, { 185,-7979 }, { 186,-7979 }, { 187,-7979 },
+ { 188,-7979 }, { 189,-7979 }, { 190,-7979 }, { 191,-7979 }, { 192,-7979 },
+ { 193,-7979 }, { 194,-7979 }, { 195,-7979 }, { 196,-7979 }, { 197,-7979 },
+
+ { 198,-7979 }, { 199,-7979 }, { 200,-7979 }, { 201,-7979 }, { 202,-7979 },
+ { 203,-7979 }, { 204,-7979 }, { 205,-7979 }, { 206,-7979 }, { 207,-7979 },
+ { 208,-7979 }, { 209,-7979 }, { 210,-7979 }, { 211,-7979 }, { 212,-7979 },
+ { 213,-7979 }, { 214,-7979 }, { 215,-7979 }, { 216,-7979 }, { 217,-7979 },
+ { 218,-7979 }, { 219,-7979 }, { 220,-7979 }, { 221,-7979 }, { 222,-7979 },
+ { 223,-7979 }, { 224,-7979 }, { 225,-7979 }, { 226,-7979 }, { 227,-7979 },
+ { 228,-7979 }, { 229,-7979 }, { 230,-7979 }, { 231,-7979 }, { 232,-7979 },
+ { 233,-7979 }, { 234,-7979 }, { 235,-7979 }, { 236,-7979 }, { 237,-7979 },
+ { 238,-7979 }, { 239,-7979 }, { 240,-7979 }, { 241,-7979 }, { 242,-7979 },
+ { 243,-7979 }, { 244,-7979 }, { 245,-7979 }, { 246,-7979 }, { 247,-7979 },
+
+ { 248,-7979 }, { 249,-7979 }, { 250,-7979 }, { 251,-7979 }, { 252,-7979 },
+ { 253,-7979 }, { 254,-7979 }, { 255,-7979 }, { 256,-7979 }, {   0,   0 },
+ {   0,4943 }, {   1,-8237 }, {   2,-8237 }, {   3,-8237 }, {   4,-8237 },
+ {   5,-8237 }, {   6,-8237 }, {   7,-8237 }, {   8,-8237 }, {   9,1427 },
+ {  10,1427 }, {  11,-8237 }, {  12,-8237 }, {  13,1427 }, {  14,-8237 },
+ {  15,-8237 }, {  16,-8237 }, {  17,-8237 }, {  18,-8237 }, {  19,-8237 },
+ {  20,-8237 }, {  21,-8237 }, {  22,-8237 }, {  23,-8237 }, {  24,-8237 },
+ {  25,-8237 }, {  26,-8237 }, {  27,-8237 }, {  28,-8237 }, {  29,-8237 },
+ {  30,-8237 }, {  31,-8237 }, {  32,1427 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,-8237 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {  41,1427 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,-8237 }, {  46,-8262 }, {  47,-8262 }, {  48,-8237 }, {  49,-8237 },
+ {  50,-8237 }, {  51,-8237 }, {  52,-8237 }, {  53,-8237 }, {  54,-8237 },
+ {  55,-8237 }, {  56,-8237 }, {  57,-8237 }, {  58,-8237 }, {   0,   0 },
+ {   0,   0 }, {  61,-8262 }, {   0,   0 }, {  63,-8237 }, {   0,   0 },
+ {  65,-8237 }, {  66,-8237 }, {  67,-8237 }, {  68,-8237 }, {  69,-8237 },
+ {  70,-8237 }, {  71,-8237 }, {  72,-8237 }, {  73,-8237 }, {  74,-8237 },
+ {  75,-8237 }, {  76,-8237 }, {  77,-8237 }, {  78,-8237 }, {  79,-8237 },
+ {  80,-8237 }, {  81,-8237 }, {  82,-8237 }, {  83,-8237 }, {  84,-8237 },
+ {  85,-8237 }, {  86,-8237 }, {  87,-8237 }, {  88,-8237 }, {  89,-8237 },
+
+ {  90,-8237 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,-8237 }, {   0,   0 }, {  97,-8237 }, {  98,-8237 }, {  99,-8237 },
+ { 100,-8237 }, { 101,-8237 }, { 102,-8237 }, { 103,-8237 }, { 104,-8237 },
+ { 105,-8237 }, { 106,-8237 }, { 107,-8237 }, { 108,-8237 }, { 109,-8237 },
+ { 110,-8237 }, { 111,-8237 }, { 112,-8237 }, { 113,-8237 }, { 114,-8237 },
+ { 115,-8237 }, { 116,-8237 }, { 117,-8237 }, { 118,-8237 }, { 119,-8237 },
+ { 120,-8237 }, { 121,-8237 }, { 122,-8237 }, {   0,   0 }, { 124,-8262 },
+ { 125,1427 }, { 126,1427 }, { 127,-8237 }, { 128,-8237 }, { 129,-8237 },
+ { 130,-8237 }, { 131,-8237 }, { 132,-8237 }, { 133,-8237 }, { 134,-8237 },
+ { 135,-8237 }, { 136,-8237 }, { 137,-8237 }, { 138,-8237 }, { 139,-8237 },
+
+ { 140,-8237 }, { 141,-8237 }, { 142,-8237 }, { 143,-8237 }, { 144,-8237 },
+ { 145,-8237 }, { 146,-8237 }, { 147,-8237 }, { 148,-8237 }, { 149,-8237 },
+ { 150,-8237 }, { 151,-8237 }, { 152,-8237 }, { 153,-8237 }, { 154,-8237 },
+ { 155,-8237 }, { 156,-8237 }, { 157,-8237 }, { 158,-8237 }, { 159,-8237 },
+ { 160,-8237 }, { 161,-8237 }, { 162,-8237 }, { 163,-8237 }, { 164,-8237 },
+ { 165,-8237 }, { 166,-8237 }, { 167,-8237 }, { 168,-8237 }, { 169,-8237 },
+ { 170,-8237 }, { 171,-8237 }, { 172,-8237 }, { 173,-8237 }, { 174,-8237 },
+ { 175,-8237 }, { 176,-8237 }, { 177,-8237 }, { 178,-8237 }, { 179,-8237 },
+ { 180,-8237 }, { 181,-8237 }, { 182,-8237 }, { 183,-8237 }, { 184,-8237 },
+ { 185,-8237 }, { 186,-8237 }, { 187,-8237 }, { 188,-8237 }, { 189,-8237 },
+
+ { 190,-8237 }, { 191,-8237 }, { 192,-8237 }, { 193,-8237 }, { 194,-8237 },
+ { 195,-8237 }, { 196,-8237 }, { 197,-8237 }, { 198,-8237 }, { 199,-8237 },
+ { 200,-8237 }, { 201,-8237 }, { 202,-8237 }, { 203,-8237 }, { 204,-8237 },
+ { 205,-8237 }, { 206,-8237 }, { 207,-8237 }, { 208,-8237 }, { 209,-8237 },
+ { 210,-8237 }, { 211,-8237 }, { 212,-8237 }, { 213,-8237 }, { 214,-8237 },
+ { 215,-8237 }, { 216,-8237 }, { 217,-8237 }, { 218,-8237 }, { 219,-8237 },
+ { 220,-8237 }, { 221,-8237 }, { 222,-8237 }, { 223,-8237 }, { 224,-8237 },
+ { 225,-8237 }, { 226,-8237 }, { 227,-8237 }, { 228,-8237 }, { 229,-8237 },
+ { 230,-8237 }, { 231,-8237 }, { 232,-8237 }, { 233,-8237 }, { 234,-8237 },
+ { 235,-8237 }, { 236,-8237 }, { 237,-8237 }, { 238,-8237 }, { 239,-8237 },
+
+ { 240,-8237 }, { 241,-8237 }, { 242,-8237 }, { 243,-8237 }, { 244,-8237 },
+ { 245,-8237 }, { 246,-8237 }, { 247,-8237 }, { 248,-8237 }, { 249,-8237 },
+ { 250,-8237 }, { 251,-8237 }, { 252,-8237 }, { 253,-8237 }, { 254,-8237 },
+ { 255,-8237 }, { 256,-8237 }, {   0,   0 }, {   0,4685 }, {   1,-8495 },
+ {   2,-8495 }, {   3,-8495 }, {   4,-8495 }, {   5,-8495 }, {   6,-8495 },
+ {   7,-8495 }, {   8,-8495 }, {   9,-8520 }, {  10,-8520 }, {  11,-8495 },
+ {  12,-8495 }, {  13,-8520 }, {  14,-8495 }, {  15,-8495 }, {  16,-8495 },
+ {  17,-8495 }, {  18,-8495 }, {  19,-8495 }, {  20,-8495 }, {  21,-8495 },
+ {  22,-8495 }, {  23,-8495 }, {  24,-8495 }, {  25,-8495 }, {  26,-8495 },
+ {  27,-8495 }, {  28,-8495 }, {  29,-8495 }, {  30,-8495 }, {  31,-8495 },
+
+ {  32,-8520 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-8495 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-8520 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-8495 }, {  46,-8520 },
+ {  47,-8520 }, {  48,-8495 }, {  49,-8495 }, {  50,-8495 }, {  51,-8495 },
+ {  52,-8495 }, {  53,-8495 }, {  54,-8495 }, {  55,-8495 }, {  56,-8495 },
+ {  57,-8495 }, {  58,-8495 }, {   0,   0 }, {   0,   0 }, {  61,-8520 },
+ {   0,   0 }, {  63,-8495 }, {   0,   0 }, {  65,-8495 }, {  66,-8495 },
+ {  67,-8495 }, {  68,-8495 }, {  69,-8495 }, {  70,-8495 }, {  71,-8495 },
+ {  72,-8495 }, {  73,-8495 }, {  74,-8495 }, {  75,-8495 }, {  76,-8495 },
+ {  77,-8495 }, {  78,-8495 }, {  79,-8495 }, {  80,-8495 }, {  81,-8495 },
+
+ {  82,-8495 }, {  83,-8495 }, {  84,-8495 }, {  85,-8495 }, {  86,-8495 },
+ {  87,-8495 }, {  88,-8495 }, {  89,-8495 }, {  90,-8495 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-8495 }, {   0,   0 },
+ {  97,-8495 }, {  98,-8495 }, {  99,-8495 }, { 100,-8495 }, { 101,-8495 },
+ { 102,1448 }, { 103,-8495 }, { 104,-8495 }, { 105,-8495 }, { 106,-8495 },
+ { 107,-8495 }, { 108,-8495 }, { 109,-8495 }, { 110,-8495 }, { 111,-8495 },
+ { 112,-8495 }, { 113,-8495 }, { 114,-8495 }, { 115,-8495 }, { 116,-8495 },
+ { 117,-8495 }, { 118,-8495 }, { 119,-8495 }, { 120,-8495 }, { 121,-8495 },
+ { 122,-8495 }, {   0,   0 }, { 124,-8520 }, { 125,-8520 }, { 126,-8520 },
+ { 127,-8495 }, { 128,-8495 }, { 129,-8495 }, { 130,-8495 }, { 131,-8495 },
+
+ { 132,-8495 }, { 133,-8495 }, { 134,-8495 }, { 135,-8495 }, { 136,-8495 },
+ { 137,-8495 }, { 138,-8495 }, { 139,-8495 }, { 140,-8495 }, { 141,-8495 },
+ { 142,-8495 }, { 143,-8495 }, { 144,-8495 }, { 145,-8495 }, { 146,-8495 },
+ { 147,-8495 }, { 148,-8495 }, { 149,-8495 }, { 150,-8495 }, { 151,-8495 },
+ { 152,-8495 }, { 153,-8495 }, { 154,-8495 }, { 155,-8495 }, { 156,-8495 },
+ { 157,-8495 }, { 158,-8495 }, { 159,-8495 }, { 160,-8495 }, { 161,-8495 },
+ { 162,-8495 }, { 163,-8495 }, { 164,-8495 }, { 165,-8495 }, { 166,-8495 },
+ { 167,-8495 }, { 168,-8495 }, { 169,-8495 }, { 170,-8495 }, { 171,-8495 },
+ { 172,-8495 }, { 173,-8495 }, { 174,-8495 }, { 175,-8495 }, { 176,-8495 },
+ { 177,-8495 }, { 178,-8495 }, { 179,-8495 }, { 180,-8495 }, { 181,-8495 },
+
+ { 182,-8495 }, { 183,-8495 }, { 184,-8495 }, { 185,-8495 }, { 186,-8495 },
+ { 187,-8495 }, { 188,-8495 }, { 189,-8495 }, { 190,-8495 }, { 191,-8495 },
+ { 192,-8495 }, { 193,-8495 }, { 194,-8495 }, { 195,-8495 }, { 196,-8495 },
+ { 197,-8495 }, { 198,-8495 }, { 199,-8495 }, { 200,-8495 }, { 201,-8495 },
+ { 202,-8495 }, { 203,-8495 }, { 204,-8495 }, { 205,-8495 }, { 206,-8495 },
+ { 207,-8495 }, { 208,-8495 }, { 209,-8495 }, { 210,-8495 }, { 211,-8495 },
+ { 212,-8495 }, { 213,-8495 }, { 214,-8495 }, { 215,-8495 }, { 216,-8495 },
+ { 217,-8495 }, { 218,-8495 }, { 219,-8495 }, { 220,-8495 }, { 221,-8495 },
+ { 222,-8495 }, { 223,-8495 }, { 224,-8495 }, { 225,-8495 }, { 226,-8495 },
+ { 227,-8495 }, { 228,-8495 }, { 229,-8495 }, { 230,-8495 }, { 231,-8495 },
+
+ { 232,-8495 }, { 233,-8495 }, { 234,-8495 }, { 235,-8495 }, { 236,-8495 },
+ { 237,-8495 }, { 238,-8495 }, { 239,-8495 }, { 240,-8495 }, { 241,-8495 },
+ { 242,-8495 }, { 243,-8495 }, { 244,-8495 }, { 245,-8495 }, { 246,-8495 },
+ { 247,-8495 }, { 248,-8495 }, { 249,-8495 }, { 250,-8495 }, { 251,-8495 },
+ { 252,-8495 }, { 253,-8495 }, { 254,-8495 }, { 255,-8495 }, { 256,-8495 },
+ {   0,   0 }, {   0,4427 }, {   0,   0 }, {   0,4425 }, {   0,   0 },
+ {   0,4423 }, {   0,   0 }, {   0,4421 }, {   0,   0 }, {   0,4419 },
+ {   0,  17 }, {   0,4417 }, {   0,  27 }, {   0,4415 }, {   0,  18 },
+ {   0,4413 }, {   0,  37 }, {   0,4411 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -4601,380 +4304,957 @@ static const struct yy_trans_info yy_transition[20137] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 125,1164 }, { 126,1166 }, {   0,   0 }, {   0,1694 }, {   1,   0 },
- {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
- {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 115,   0 }, { 108,1448 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, { 115,1448 }, {   0,   0 }, {   0,   0 },
 
- {  12,   0 }, {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 },
- {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 },
- {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 },
- {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 },
- {  32,   0 }, {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 },
- {  37,   0 }, {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 },
- {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45, 258 }, {  46,   0 },
- {  47,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 },
- {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 },
- {  57,   0 }, {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 },
+ {   0,   0 }, { 125,   2 }, { 126,   4 }, { 125,1450 }, {   0,   0 },
+ { 125,  -2 }, {   0,   0 }, {   0,4296 }, {   1,   0 }, {   2,   0 },
+ {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
+ {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
+ {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
+ {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 },
+ {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
+ {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 },
+ {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 },
+ {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 },
 
- {  62,   0 }, {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 },
- {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 },
- {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 },
- {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 },
- {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 },
- {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 },
- {  92,   0 }, {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 },
- {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 },
- { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 },
- { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 },
+ {  43,   0 }, {  44,   0 }, {  45, 258 }, {  46,   0 }, {  47,   0 },
+ {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
+ {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
+ {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 },
+ {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
+ {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 },
+ {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
+ {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
+ {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
+ {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 },
 
- { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 },
- { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 },
- { 122,   0 }, { 123,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 },
- { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 },
- { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 },
- { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 },
- { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 },
- { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 },
- { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 },
- { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 },
+ {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 },
+ {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
+ { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
+ { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
+ { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
+ { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
+ { 123,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 },
+ { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
+ { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
+ { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 },
 
- { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 },
- { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 },
- { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 },
- { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 },
- { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 },
- { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 },
- { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 },
- { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 },
- { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 },
- { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 },
+ { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 },
+ { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 },
+ { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 },
+ { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 },
+ { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 },
+ { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 },
+ { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 },
+ { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 },
+ { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 },
+ { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 },
 
- { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 },
- { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 },
- { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 },
- { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 },
- { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 },
- { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 },
- { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
- { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
- { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,   0 }, {   0,1436 }, {   1,-258 }, {   2,-258 }, {   3,-258 },
-
- {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 }, {   8,-258 },
- {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 }, {  13,-258 },
- {  14,-258 }, {  15,-258 }, {  16,-258 }, {  17,-258 }, {  18,-258 },
- {  19,-258 }, {  20,-258 }, {  21,-258 }, {  22,-258 }, {  23,-258 },
- {  24,-258 }, {  25,-258 }, {  26,-258 }, {  27,-258 }, {  28,-258 },
- {  29,-258 }, {  30,-258 }, {  31,-258 }, {  32,-258 }, {  33,-258 },
- {  34,-258 }, {  35,-258 }, {  36,-258 }, {  37,-258 }, {  38,-258 },
- {  39,-258 }, {  40,-258 }, {  41,-258 }, {  42,-258 }, {  43,-258 },
- {  44,-258 }, {  45, 791 }, {  46,-258 }, {  47,-258 }, {  48,-258 },
- {  49,-258 }, {  50,-258 }, {  51,-258 }, {  52,-258 }, {  53,-258 },
-
- {  54,-258 }, {  55,-258 }, {  56,-258 }, {  57,-258 }, {  58,-258 },
- {  59,-258 }, {  60,-258 }, {  61,-258 }, {  62,-258 }, {  63,-258 },
- {  64,-258 }, {  65,-258 }, {  66,-258 }, {  67,-258 }, {  68,-258 },
- {  69,-258 }, {  70,-258 }, {  71,-258 }, {  72,-258 }, {  73,-258 },
- {  74,-258 }, {  75,-258 }, {  76,-258 }, {  77,-258 }, {  78,-258 },
- {  79,-258 }, {  80,-258 }, {  81,-258 }, {  82,-258 }, {  83,-258 },
- {  84,-258 }, {  85,-258 }, {  86,-258 }, {  87,-258 }, {  88,-258 },
- {  89,-258 }, {  90,-258 }, {  91,-258 }, {  92,-258 }, {  93,-258 },
- {  94,-258 }, {  95,-258 }, {  96,-258 }, {  97,-258 }, {  98,-258 },
- {  99,-258 }, { 100,-258 }, { 101,-258 }, { 102,-258 }, { 103,-258 },
-
- { 104,-258 }, { 105,-258 }, { 106,-258 }, { 107,-258 }, { 108,-258 },
- { 109,-258 }, { 110,-258 }, { 111,-258 }, { 112,-258 }, { 113,-258 },
- { 114,-258 }, { 115,-258 }, { 116,-258 }, { 117,-258 }, { 118,-258 },
- { 119,-258 }, { 120,-258 }, { 121,-258 }, { 122,-258 }, { 123,-258 },
- { 124,-258 }, { 125,-258 }, { 126,-258 }, { 127,-258 }, { 128,-258 },
- { 129,-258 }, { 130,-258 }, { 131,-258 }, { 132,-258 }, { 133,-258 },
- { 134,-258 }, { 135,-258 }, { 136,-258 }, { 137,-258 }, { 138,-258 },
- { 139,-258 }, { 140,-258 }, { 141,-258 }, { 142,-258 }, { 143,-258 },
- { 144,-258 }, { 145,-258 }, { 146,-258 }, { 147,-258 }, { 148,-258 },
- { 149,-258 }, { 150,-258 }, { 151,-258 }, { 152,-258 }, { 153,-258 },
-
- { 154,-258 }, { 155,-258 }, { 156,-258 }, { 157,-258 }, { 158,-258 },
- { 159,-258 }, { 160,-258 }, { 161,-258 }, { 162,-258 }, { 163,-258 },
- { 164,-258 }, { 165,-258 }, { 166,-258 }, { 167,-258 }, { 168,-258 },
- { 169,-258 }, { 170,-258 }, { 171,-258 }, { 172,-258 }, { 173,-258 },
- { 174,-258 }, { 175,-258 }, { 176,-258 }, { 177,-258 }, { 178,-258 },
- { 179,-258 }, { 180,-258 }, { 181,-258 }, { 182,-258 }, { 183,-258 },
- { 184,-258 }, { 185,-258 }, { 186,-258 }, { 187,-258 }, { 188,-258 },
- { 189,-258 }, { 190,-258 }, { 191,-258 }, { 192,-258 }, { 193,-258 },
- { 194,-258 }, { 195,-258 }, { 196,-258 }, { 197,-258 }, { 198,-258 },
- { 199,-258 }, { 200,-258 }, { 201,-258 }, { 202,-258 }, { 203,-258 },
-
- { 204,-258 }, { 205,-258 }, { 206,-258 }, { 207,-258 }, { 208,-258 },
- { 209,-258 }, { 210,-258 }, { 211,-258 }, { 212,-258 }, { 213,-258 },
- { 214,-258 }, { 215,-258 }, { 216,-258 }, { 217,-258 }, { 218,-258 },
- { 219,-258 }, { 220,-258 }, { 221,-258 }, { 222,-258 }, { 223,-258 },
- { 224,-258 }, { 225,-258 }, { 226,-258 }, { 227,-258 }, { 228,-258 },
- { 229,-258 }, { 230,-258 }, { 231,-258 }, { 232,-258 }, { 233,-258 },
- { 234,-258 }, { 235,-258 }, { 236,-258 }, { 237,-258 }, { 238,-258 },
- { 239,-258 }, { 240,-258 }, { 241,-258 }, { 242,-258 }, { 243,-258 },
- { 244,-258 }, { 245,-258 }, { 246,-258 }, { 247,-258 }, { 248,-258 },
- { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 }, { 253,-258 },
-
- { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 }, {   0,1178 },
- {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
- {   6,   0 }, {   7,   0 }, {   8,   0 }, {   0,   0 }, {   0,   0 },
- {  11,   0 }, {  12,   0 }, {   0,   0 }, {  14,   0 }, {  15,   0 },
- {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 },
- {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 },
- {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 },
- {  31,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,   0 },
+ { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 },
+ { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 },
+ { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 },
+ { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 },
+ { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 },
+ { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 },
+ { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 },
+ { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 },
+ { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 },
+ { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
 
- {   0,   0 }, {   0,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 },
- {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 },
- {  56,   0 }, {  57,   0 }, {  58,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  63,   0 }, {   0,   0 }, {  65,   0 },
- {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 },
- {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 },
- {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 },
- {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 },
- {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,   0 },
+ { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
+ { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
+ { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 },
+ {   0,4038 }, {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 },
+ {   5,-258 }, {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 },
+ {  10,-258 }, {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 },
+ {  15,-258 }, {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 },
+ {  20,-258 }, {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 },
+ {  25,-258 }, {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 },
+ {  30,-258 }, {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 },
+
+ {  35,-258 }, {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 },
+ {  40,-258 }, {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 },
+ {  45,1184 }, {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 },
+ {  50,-258 }, {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 },
+ {  55,-258 }, {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 },
+ {  60,-258 }, {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 },
+ {  65,-258 }, {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 },
+ {  70,-258 }, {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 },
+ {  75,-258 }, {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 },
+ {  80,-258 }, {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 },
+
+ {  85,-258 }, {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 },
+ {  90,-258 }, {  91,-258 }, {  92,-258 }, {  93,-258 }, {  94,-258 },
+ {  95,-258 }, {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 },
+ { 100,-258 }, { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 },
+ { 105,-258 }, { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 },
+ { 110,-258 }, { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 },
+ { 115,-258 }, { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 },
+ { 120,-258 }, { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 },
+ { 125,-258 }, { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 },
+ { 130,-258 }, { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 },
+
+ { 135,-258 }, { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 },
+ { 140,-258 }, { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 },
+ { 145,-258 }, { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 },
+ { 150,-258 }, { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 },
+ { 155,-258 }, { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 },
+ { 160,-258 }, { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 },
+ { 165,-258 }, { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 },
+ { 170,-258 }, { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 },
+ { 175,-258 }, { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 },
+ { 180,-258 }, { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 },
+
+ { 185,-258 }, { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 },
+ { 190,-258 }, { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 },
+ { 195,-258 }, { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 },
+ { 200,-258 }, { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 },
+ { 205,-258 }, { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 },
+ { 210,-258 }, { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 },
+ { 215,-258 }, { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 },
+ { 220,-258 }, { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 },
+ { 225,-258 }, { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 },
+ { 230,-258 }, { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 },
+
+ { 235,-258 }, { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 },
+ { 240,-258 }, { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 },
+ { 245,-258 }, { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 },
+ { 250,-258 }, { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 },
+ { 255,-258 }, { 256,-258 }, {   0,   0 }, {   0,3780 }, {   1, 811 },
+ {   2, 811 }, {   3, 811 }, {   4, 811 }, {   5, 811 }, {   6, 811 },
+ {   7, 811 }, {   8, 811 }, {   9, 811 }, {  10, 811 }, {  11, 811 },
+ {  12, 811 }, {  13, 811 }, {  14, 811 }, {  15, 811 }, {  16, 811 },
+ {  17, 811 }, {  18, 811 }, {  19, 811 }, {  20, 811 }, {  21, 811 },
+ {  22, 811 }, {  23, 811 }, {  24, 811 }, {  25, 811 }, {  26, 811 },
+
+ {  27, 811 }, {  28, 811 }, {  29, 811 }, {  30, 811 }, {  31, 811 },
+ {  32, 811 }, {  33, 811 }, {  34, 811 }, {  35, 811 }, {  36, 811 },
+ {  37, 811 }, {  38, 811 }, {  39, 811 }, {  40, 811 }, {  41, 811 },
+ {  42, 811 }, {  43, 811 }, {  44, 811 }, {  45, 811 }, {  46, 811 },
+ {  47,1184 }, {  48, 811 }, {  49, 811 }, {  50, 811 }, {  51, 811 },
+ {  52, 811 }, {  53, 811 }, {  54, 811 }, {  55, 811 }, {  56, 811 },
+ {  57, 811 }, {  58, 811 }, {  59, 811 }, {  60, 811 }, {  61, 811 },
+ {  62, 811 }, {  63, 811 }, {  64, 811 }, {  65, 811 }, {  66, 811 },
+ {  67, 811 }, {  68, 811 }, {  69, 811 }, {  70, 811 }, {  71, 811 },
+ {  72, 811 }, {  73, 811 }, {  74, 811 }, {  75, 811 }, {  76, 811 },
+
+ {  77, 811 }, {  78, 811 }, {  79, 811 }, {  80, 811 }, {  81, 811 },
+ {  82, 811 }, {  83, 811 }, {  84, 811 }, {  85, 811 }, {  86, 811 },
+ {  87, 811 }, {  88, 811 }, {  89, 811 }, {  90, 811 }, {  91, 811 },
+ {  92, 811 }, {  93, 811 }, {  94, 811 }, {  95, 811 }, {  96, 811 },
+ {  97, 811 }, {  98, 811 }, {  99, 811 }, { 100, 811 }, { 101, 811 },
+ { 102, 811 }, { 103, 811 }, { 104, 811 }, { 105, 811 }, { 106, 811 },
+ { 107, 811 }, { 108, 811 }, { 109, 811 }, { 110, 811 }, { 111, 811 },
+ { 112, 811 }, { 113, 811 }, { 114, 811 }, { 115, 811 }, { 116, 811 },
+ { 117, 811 }, { 118, 811 }, { 119, 811 }, { 120, 811 }, { 121, 811 },
+ { 122, 811 }, { 123, 811 }, { 124, 811 }, { 125, 811 }, { 126, 811 },
+
+ { 127, 811 }, { 128, 811 }, { 129, 811 }, { 130, 811 }, { 131, 811 },
+ { 132, 811 }, { 133, 811 }, { 134, 811 }, { 135, 811 }, { 136, 811 },
+ { 137, 811 }, { 138, 811 }, { 139, 811 }, { 140, 811 }, { 141, 811 },
+ { 142, 811 }, { 143, 811 }, { 144, 811 }, { 145, 811 }, { 146, 811 },
+ { 147, 811 }, { 148, 811 }, { 149, 811 }, { 150, 811 }, { 151, 811 },
+ { 152, 811 }, { 153, 811 }, { 154, 811 }, { 155, 811 }, { 156, 811 },
+ { 157, 811 }, { 158, 811 }, { 159, 811 }, { 160, 811 }, { 161, 811 },
+ { 162, 811 }, { 163, 811 }, { 164, 811 }, { 165, 811 }, { 166, 811 },
+ { 167, 811 }, { 168, 811 }, { 169, 811 }, { 170, 811 }, { 171, 811 },
+ { 172, 811 }, { 173, 811 }, { 174, 811 }, { 175, 811 }, { 176, 811 },
+
+ { 177, 811 }, { 178, 811 }, { 179, 811 }, { 180, 811 }, { 181, 811 },
+ { 182, 811 }, { 183, 811 }, { 184, 811 }, { 185, 811 }, { 186, 811 },
+ { 187, 811 }, { 188, 811 }, { 189, 811 }, { 190, 811 }, { 191, 811 },
+ { 192, 811 }, { 193, 811 }, { 194, 811 }, { 195, 811 }, { 196, 811 },
+ { 197, 811 }, { 198, 811 }, { 199, 811 }, { 200, 811 }, { 201, 811 },
+ { 202, 811 }, { 203, 811 }, { 204, 811 }, { 205, 811 }, { 206, 811 },
+ { 207, 811 }, { 208, 811 }, { 209, 811 }, { 210, 811 }, { 211, 811 },
+ { 212, 811 }, { 213, 811 }, { 214, 811 }, { 215, 811 }, { 216, 811 },
+ { 217, 811 }, { 218, 811 }, { 219, 811 }, { 220, 811 }, { 221, 811 },
+ { 222, 811 }, { 223, 811 }, { 224, 811 }, { 225, 811 }, { 226, 811 },
+
+ { 227, 811 }, { 228, 811 }, { 229, 811 }, { 230, 811 }, { 231, 811 },
+ { 232, 811 }, { 233, 811 }, { 234, 811 }, { 235, 811 }, { 236, 811 },
+ { 237, 811 }, { 238, 811 }, { 239, 811 }, { 240, 811 }, { 241, 811 },
+ { 242, 811 }, { 243, 811 }, { 244, 811 }, { 245, 811 }, { 246, 811 },
+ { 247, 811 }, { 248, 811 }, { 249, 811 }, { 250, 811 }, { 251, 811 },
+ { 252, 811 }, { 253, 811 }, { 254, 811 }, { 255, 811 }, { 256, 811 },
+ {   0,   1 }, {   0,3522 }, {   0,   1 }, {   0,3520 }, {   0,  47 },
+ {   0,3518 }, {   0,  44 }, {   0,3516 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,3495 }, {   1,-9685 },
+ {   2,-9685 }, {   3,-9685 }, {   4,-9685 }, {   5,-9685 }, {   6,-9685 },
+ {   7,-9685 }, {   8,-9685 }, {   9, 530 }, {  10, 530 }, {  11,-9685 },
+ {  12,-9685 }, {  13, 530 }, {  14,-9685 }, {  15,-9685 }, {  16,-9685 },
+ {  17,-9685 }, {  18,-9685 }, {  19,-9685 }, {  20,-9685 }, {  21,-9685 },
+ {  22,-9685 }, {  23,-9685 }, {  24,-9685 }, {  25,-9685 }, {  26,-9685 },
+ {  27,-9685 }, {  28,-9685 }, {  29,-9685 }, {  30,-9685 }, {  31,-9685 },
+ {  32, 530 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-9685 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41, 530 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-9685 }, {  46,-9710 },
+ {  47,-9710 }, {  48,-9685 }, {  49,-9685 }, {  50,-9685 }, {  51,-9685 },
+ {  52,-9685 }, {  53,-9685 }, {  54,-9685 }, {  55,-9685 }, {  56,-9685 },
+ {  57,-9685 }, {  58,-9685 }, {   0,   0 }, {   0,   0 }, {  61,-9710 },
+ {   0,   0 }, {  63,-9685 }, {   0,   0 }, {  65,-9685 }, {  66,-9685 },
+ {  67,-9685 }, {  68,-9685 }, {  69,-9685 }, {  70,-9685 }, {  71,-9685 },
+ {  72,-9685 }, {  73,-9685 }, {  74,-9685 }, {  75,-9685 }, {  76,-9685 },
+ {  77,-9685 }, {  78,-9685 }, {  79,-9685 }, {  80,-9685 }, {  81,-9685 },
+ {  82,-9685 }, {  83,-9685 }, {  84,-9685 }, {  85,-9685 }, {  86,-9685 },
+ {  87,-9685 }, {  88,-9685 }, {  89,-9685 }, {  90,-9685 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-9685 }, { 123, 555 },
+ {  97,-9685 }, {  98,-9685 }, {  99,-9685 }, { 100,-9685 }, { 101,-9685 },
+ { 102,-9685 }, { 103,-9685 }, { 104,-9685 }, { 105,-9685 }, { 106,-9685 },
+ { 107,-9685 }, { 108,-9685 }, { 109,-9685 }, { 110,-9685 }, { 111,-9685 },
+ { 112,-9685 }, { 113,-9685 }, { 114,-9685 }, { 115,-9685 }, { 116,-9685 },
+ { 117,-9685 }, { 118,-9685 }, { 119,-9685 }, { 120,-9685 }, { 121,-9685 },
+ { 122,-9685 }, {   0,   0 }, { 124,-9710 }, { 125, 530 }, { 126, 530 },
+ { 127,-9685 }, { 128,-9685 }, { 129,-9685 }, { 130,-9685 }, { 131,-9685 },
+ { 132,-9685 }, { 133,-9685 }, { 134,-9685 }, { 135,-9685 }, { 136,-9685 },
+ { 137,-9685 }, { 138,-9685 }, { 139,-9685 }, { 140,-9685 }, { 141,-9685 },
+
+ { 142,-9685 }, { 143,-9685 }, { 144,-9685 }, { 145,-9685 }, { 146,-9685 },
+ { 147,-9685 }, { 148,-9685 }, { 149,-9685 }, { 150,-9685 }, { 151,-9685 },
+ { 152,-9685 }, { 153,-9685 }, { 154,-9685 }, { 155,-9685 }, { 156,-9685 },
+ { 157,-9685 }, { 158,-9685 }, { 159,-9685 }, { 160,-9685 }, { 161,-9685 },
+ { 162,-9685 }, { 163,-9685 }, { 164,-9685 }, { 165,-9685 }, { 166,-9685 },
+ { 167,-9685 }, { 168,-9685 }, { 169,-9685 }, { 170,-9685 }, { 171,-9685 },
+ { 172,-9685 }, { 173,-9685 }, { 174,-9685 }, { 175,-9685 }, { 176,-9685 },
+ { 177,-9685 }, { 178,-9685 }, { 179,-9685 }, { 180,-9685 }, { 181,-9685 },
+ { 182,-9685 }, { 183,-9685 }, { 184,-9685 }, { 185,-9685 }, { 186,-9685 },
+ { 187,-9685 }, { 188,-9685 }, { 189,-9685 }, { 190,-9685 }, { 191,-9685 },
+
+ { 192,-9685 }, { 193,-9685 }, { 194,-9685 }, { 195,-9685 }, { 196,-9685 },
+ { 197,-9685 }, { 198,-9685 }, { 199,-9685 }, { 200,-9685 }, { 201,-9685 },
+ { 202,-9685 }, { 203,-9685 }, { 204,-9685 }, { 205,-9685 }, { 206,-9685 },
+ { 207,-9685 }, { 208,-9685 }, { 209,-9685 }, { 210,-9685 }, { 211,-9685 },
+ { 212,-9685 }, { 213,-9685 }, { 214,-9685 }, { 215,-9685 }, { 216,-9685 },
+ { 217,-9685 }, { 218,-9685 }, { 219,-9685 }, { 220,-9685 }, { 221,-9685 },
+ { 222,-9685 }, { 223,-9685 }, { 224,-9685 }, { 225,-9685 }, { 226,-9685 },
+ { 227,-9685 }, { 228,-9685 }, { 229,-9685 }, { 230,-9685 }, { 231,-9685 },
+ { 232,-9685 }, { 233,-9685 }, { 234,-9685 }, { 235,-9685 }, { 236,-9685 },
+ { 237,-9685 }, { 238,-9685 }, { 239,-9685 }, { 240,-9685 }, { 241,-9685 },
+
+ { 242,-9685 }, { 243,-9685 }, { 244,-9685 }, { 245,-9685 }, { 246,-9685 },
+ { 247,-9685 }, { 248,-9685 }, { 249,-9685 }, { 250,-9685 }, { 251,-9685 },
+ { 252,-9685 }, { 253,-9685 }, { 254,-9685 }, { 255,-9685 }, { 256,-9685 },
+ {   0,   0 }, {   0,3237 }, {   1,-9943 }, {   2,-9943 }, {   3,-9943 },
+ {   4,-9943 }, {   5,-9943 }, {   6,-9943 }, {   7,-9943 }, {   8,-9943 },
+ {   9,-9968 }, {  10,-9968 }, {  11,-9943 }, {  12,-9943 }, {  13,-9968 },
+ {  14,-9943 }, {  15,-9943 }, {  16,-9943 }, {  17,-9943 }, {  18,-9943 },
+ {  19,-9943 }, {  20,-9943 }, {  21,-9943 }, {  22,-9943 }, {  23,-9943 },
+ {  24,-9943 }, {  25,-9943 }, {  26,-9943 }, {  27,-9943 }, {  28,-9943 },
+ {  29,-9943 }, {  30,-9943 }, {  31,-9943 }, {  32,-9968 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {  36,-9943 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,-9968 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-9943 }, {  46,-9968 }, {  47,-9968 }, {  48,-9943 },
+ {  49,-9943 }, {  50,-9943 }, {  51,-9943 }, {  52,-9943 }, {  53,-9943 },
+ {  54,-9943 }, {  55,-9943 }, {  56,-9943 }, {  57,-9943 }, {  58,-9943 },
+ {   0,   0 }, {   0,   0 }, {  61,-9968 }, {   0,   0 }, {  63,-9943 },
+ {   0,   0 }, {  65,-9943 }, {  66,-9943 }, {  67,-9943 }, {  68,-9943 },
+ {  69,-9943 }, {  70,-9943 }, {  71,-9943 }, {  72,-9943 }, {  73,-9943 },
+ {  74,-9943 }, {  75,-9943 }, {  76,-9943 }, {  77,-9943 }, {  78,-9943 },
+ {  79,-9943 }, {  80,-9943 }, {  81,-9943 }, {  82,-9943 }, {  83,-9943 },
+
+ {  84,-9943 }, {  85,-9943 }, {  86,-9943 }, {  87,-9943 }, {  88,-9943 },
+ {  89,-9943 }, {  90,-9943 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-9943 }, {   0,   0 }, {  97,-9943 }, {  98,-9943 },
+ {  99,-9943 }, { 100,-9943 }, { 101,-9943 }, { 102,-9943 }, { 103,-9943 },
+ { 104,-9943 }, { 105, 899 }, { 106,-9943 }, { 107,-9943 }, { 108,-9943 },
+ { 109,-9943 }, { 110,-9943 }, { 111,-9943 }, { 112,-9943 }, { 113,-9943 },
+ { 114,-9943 }, { 115,-9943 }, { 116,-9943 }, { 117,-9943 }, { 118,-9943 },
+ { 119,-9943 }, { 120,-9943 }, { 121,-9943 }, { 122,-9943 }, {   0,   0 },
+ { 124,-9968 }, { 125,-9968 }, { 126,-9968 }, { 127,-9943 }, { 128,-9943 },
+ { 129,-9943 }, { 130,-9943 }, { 131,-9943 }, { 132,-9943 }, { 133,-9943 },
+
+ { 134,-9943 }, { 135,-9943 }, { 136,-9943 }, { 137,-9943 }, { 138,-9943 },
+ { 139,-9943 }, { 140,-9943 }, { 141,-9943 }, { 142,-9943 }, { 143,-9943 },
+ { 144,-9943 }, { 145,-9943 }, { 146,-9943 }, { 147,-9943 }, { 148,-9943 },
+ { 149,-9943 }, { 150,-9943 }, { 151,-9943 }, { 152,-9943 }, { 153,-9943 },
+ { 154,-9943 }, { 155,-9943 }, { 156,-9943 }, { 157,-9943 }, { 158,-9943 },
+ { 159,-9943 }, { 160,-9943 }, { 161,-9943 }, { 162,-9943 }, { 163,-9943 },
+ { 164,-9943 }, { 165,-9943 }, { 166,-9943 }, { 167,-9943 }, { 168,-9943 },
+ { 169,-9943 }, { 170,-9943 }, { 171,-9943 }, { 172,-9943 }, { 173,-9943 },
+ { 174,-9943 }, { 175,-9943 }, { 176,-9943 }, { 177,-9943 }, { 178,-9943 },
+ { 179,-9943 }, { 180,-9943 }, { 181,-9943 }, { 182,-9943 }, { 183,-9943 },
+
+ { 184,-9943 }, { 185,-9943 }, { 186,-9943 }, { 187,-9943 }, { 188,-9943 },
+ { 189,-9943 }, { 190,-9943 }, { 191,-9943 }, { 192,-9943 }, { 193,-9943 },
+ { 194,-9943 }, { 195,-9943 }, { 196,-9943 }, { 197,-9943 }, { 198,-9943 },
+ { 199,-9943 }, { 200,-9943 }, { 201,-9943 }, { 202,-9943 }, { 203,-9943 },
+ { 204,-9943 }, { 205,-9943 }, { 206,-9943 }, { 207,-9943 }, { 208,-9943 },
+ { 209,-9943 }, { 210,-9943 }, { 211,-9943 }, { 212,-9943 }, { 213,-9943 },
+ { 214,-9943 }, { 215,-9943 }, { 216,-9943 }, { 217,-9943 }, { 218,-9943 },
+ { 219,-9943 }, { 220,-9943 }, { 221,-9943 }, { 222,-9943 }, { 223,-9943 },
+ { 224,-9943 }, { 225,-9943 }, { 226,-9943 }, { 227,-9943 }, { 228,-9943 },
+ { 229,-9943 }, { 230,-9943 }, { 231,-9943 }, { 232,-9943 }, { 233,-9943 },
+
+ { 234,-9943 }, { 235,-9943 }, { 236,-9943 }, { 237,-9943 }, { 238,-9943 },
+ { 239,-9943 }, { 240,-9943 }, { 241,-9943 }, { 242,-9943 }, { 243,-9943 },
+ { 244,-9943 }, { 245,-9943 }, { 246,-9943 }, { 247,-9943 }, { 248,-9943 },
+ { 249,-9943 }, { 250,-9943 }, { 251,-9943 }, { 252,-9943 }, { 253,-9943 },
+ { 254,-9943 }, { 255,-9943 }, { 256,-9943 }, {   0,   0 }, {   0,2979 },
+ {   0,  29 }, {   0,2977 }, {   0,  23 }, {   0,2975 }, {   0,   0 },
+ {   0,2973 }, {   0,   0 }, {   0,2971 }, {   0,   8 }, {   0,2969 },
+ {   0,   1 }, {   0,2967 }, {   0,  45 }, {   0,2965 }, {   0,   0 },
+ {   0,2963 }, {   0,   0 }, {   0,2961 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 101, 893 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 115,  16 },
+ {   0,   0 }, { 101,2301 }, {   0,   0 }, { 101,2307 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, { 115,  10 }, {   0,   0 }, {   0,2854 },
+
+ {   1,-1442 }, {   2,-1442 }, {   3,-1442 }, {   4,-1442 }, {   5,-1442 },
+ {   6,-1442 }, {   7,-1442 }, {   8,-1442 }, {   9,-1442 }, {  10,-1442 },
+ {  11,-1442 }, {  12,-1442 }, {  13,-1442 }, {  14,-1442 }, {  15,-1442 },
+ {  16,-1442 }, {  17,-1442 }, {  18,-1442 }, {  19,-1442 }, {  20,-1442 },
+ {  21,-1442 }, {  22,-1442 }, {  23,-1442 }, {  24,-1442 }, {  25,-1442 },
+ {  26,-1442 }, {  27,-1442 }, {  28,-1442 }, {  29,-1442 }, {  30,-1442 },
+ {  31,-1442 }, {  32,-1442 }, {  33,-1442 }, {  34,-1442 }, {  35,-1442 },
+ {  36,-1442 }, {  37,-1442 }, {  38,-1442 }, {  39,-1442 }, {  40,-1442 },
+ {  41,-1442 }, {  42,-1442 }, {  43,-1442 }, {  44,-1442 }, {  45, 902 },
+ {  46,-1442 }, {  47,-1442 }, {  48,-1442 }, {  49,-1442 }, {  50,-1442 },
+
+ {  51,-1442 }, {  52,-1442 }, {  53,-1442 }, {  54,-1442 }, {  55,-1442 },
+ {  56,-1442 }, {  57,-1442 }, {  58,-1442 }, {  59,-1442 }, {  60,-1442 },
+ {  61,-1442 }, {  62,-1442 }, {  63,-1442 }, {  64,-1442 }, {  65,-1442 },
+ {  66,-1442 }, {  67,-1442 }, {  68,-1442 }, {  69,-1442 }, {  70,-1442 },
+ {  71,-1442 }, {  72,-1442 }, {  73,-1442 }, {  74,-1442 }, {  75,-1442 },
+ {  76,-1442 }, {  77,-1442 }, {  78,-1442 }, {  79,-1442 }, {  80,-1442 },
+ {  81,-1442 }, {  82,-1442 }, {  83,-1442 }, {  84,-1442 }, {  85,-1442 },
+ {  86,-1442 }, {  87,-1442 }, {  88,-1442 }, {  89,-1442 }, {  90,-1442 },
+ {  91,-1442 }, {  92,-1442 }, {  93,-1442 }, {  94,-1442 }, {  95,-1442 },
+ {  96,-1442 }, {  97,-1442 }, {  98,-1442 }, {  99,-1442 }, { 100,-1442 },
+
+ { 101,-1442 }, { 102,-1442 }, { 103,-1442 }, { 104,-1442 }, { 105,-1442 },
+ { 106,-1442 }, { 107,-1442 }, { 108,-1442 }, { 109,-1442 }, { 110,-1442 },
+ { 111,-1442 }, { 112,-1442 }, { 113,-1442 }, { 114,-1442 }, { 115,-1442 },
+ { 116,-1442 }, { 117,-1442 }, { 118,-1442 }, { 119,-1442 }, { 120,-1442 },
+ { 121,-1442 }, { 122,-1442 }, { 123,-1442 }, { 124,-1442 }, { 125,1160 },
+ { 126,1418 }, { 127,-1442 }, { 128,-1442 }, { 129,-1442 }, { 130,-1442 },
+ { 131,-1442 }, { 132,-1442 }, { 133,-1442 }, { 134,-1442 }, { 135,-1442 },
+ { 136,-1442 }, { 137,-1442 }, { 138,-1442 }, { 139,-1442 }, { 140,-1442 },
+ { 141,-1442 }, { 142,-1442 }, { 143,-1442 }, { 144,-1442 }, { 145,-1442 },
+ { 146,-1442 }, { 147,-1442 }, { 148,-1442 }, { 149,-1442 }, { 150,-1442 },
+
+ { 151,-1442 }, { 152,-1442 }, { 153,-1442 }, { 154,-1442 }, { 155,-1442 },
+ { 156,-1442 }, { 157,-1442 }, { 158,-1442 }, { 159,-1442 }, { 160,-1442 },
+ { 161,-1442 }, { 162,-1442 }, { 163,-1442 }, { 164,-1442 }, { 165,-1442 },
+ { 166,-1442 }, { 167,-1442 }, { 168,-1442 }, { 169,-1442 }, { 170,-1442 },
+ { 171,-1442 }, { 172,-1442 }, { 173,-1442 }, { 174,-1442 }, { 175,-1442 },
+ { 176,-1442 }, { 177,-1442 }, { 178,-1442 }, { 179,-1442 }, { 180,-1442 },
+ { 181,-1442 }, { 182,-1442 }, { 183,-1442 }, { 184,-1442 }, { 185,-1442 },
+ { 186,-1442 }, { 187,-1442 }, { 188,-1442 }, { 189,-1442 }, { 190,-1442 },
+ { 191,-1442 }, { 192,-1442 }, { 193,-1442 }, { 194,-1442 }, { 195,-1442 },
+ { 196,-1442 }, { 197,-1442 }, { 198,-1442 }, { 199,-1442 }, { 200,-1442 },
+
+ { 201,-1442 }, { 202,-1442 }, { 203,-1442 }, { 204,-1442 }, { 205,-1442 },
+ { 206,-1442 }, { 207,-1442 }, { 208,-1442 }, { 209,-1442 }, { 210,-1442 },
+ { 211,-1442 }, { 212,-1442 }, { 213,-1442 }, { 214,-1442 }, { 215,-1442 },
+ { 216,-1442 }, { 217,-1442 }, { 218,-1442 }, { 219,-1442 }, { 220,-1442 },
+ { 221,-1442 }, { 222,-1442 }, { 223,-1442 }, { 224,-1442 }, { 225,-1442 },
+ { 226,-1442 }, { 227,-1442 }, { 228,-1442 }, { 229,-1442 }, { 230,-1442 },
+ { 231,-1442 }, { 232,-1442 }, { 233,-1442 }, { 234,-1442 }, { 235,-1442 },
+ { 236,-1442 }, { 237,-1442 }, { 238,-1442 }, { 239,-1442 }, { 240,-1442 },
+ { 241,-1442 }, { 242,-1442 }, { 243,-1442 }, { 244,-1442 }, { 245,-1442 },
+ { 246,-1442 }, { 247,-1442 }, { 248,-1442 }, { 249,-1442 }, { 250,-1442 },
+
+ { 251,-1442 }, { 252,-1442 }, { 253,-1442 }, { 254,-1442 }, { 255,-1442 },
+ { 256,-1442 }, {   0,   0 }, {   0,2596 }, {   1,1418 }, {   2,1418 },
+ {   3,1418 }, {   4,1418 }, {   5,1418 }, {   6,1418 }, {   7,1418 },
+ {   8,1418 }, {   0,   0 }, {   0,   0 }, {  11,1418 }, {  12,1418 },
+ {   0,   0 }, {  14,1418 }, {  15,1418 }, {  16,1418 }, {  17,1418 },
+ {  18,1418 }, {  19,1418 }, {  20,1418 }, {  21,1418 }, {  22,1418 },
+ {  23,1418 }, {  24,1418 }, {  25,1418 }, {  26,1418 }, {  27,1418 },
+ {  28,1418 }, {  29,1418 }, {  30,1418 }, {  31,1418 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,1418 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {  45,1418 }, {   0,   0 }, {   0,   0 },
+ {  48,1418 }, {  49,1418 }, {  50,1418 }, {  51,1418 }, {  52,1418 },
+ {  53,1418 }, {  54,1418 }, {  55,1418 }, {  56,1418 }, {  57,1418 },
+ {  58,1418 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  63,1418 }, {   0,   0 }, {  65,1418 }, {  66,1418 }, {  67,1418 },
+ {  68,1418 }, {  69,1418 }, {  70,1418 }, {  71,1418 }, {  72,1418 },
+ {  73,1418 }, {  74,1418 }, {  75,1418 }, {  76,1418 }, {  77,1418 },
+ {  78,1418 }, {  79,1418 }, {  80,1418 }, {  81,1418 }, {  82,1418 },
+ {  83,1418 }, {  84,1418 }, {  85,1418 }, {  86,1418 }, {  87,1418 },
+ {  88,1418 }, {  89,1418 }, {  90,1418 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {  95,1418 }, {   0,   0 }, {  97,1418 },
+ {  98,1418 }, {  99,1418 }, { 100,1418 }, { 101,1418 }, { 102,1418 },
+ { 103,1418 }, { 104,1418 }, { 105,1418 }, { 106,1418 }, { 107,1418 },
+ { 108,1418 }, { 109,1418 }, { 110,1418 }, { 111,1418 }, { 112,1418 },
+ { 113,1418 }, { 114,1418 }, { 115,1418 }, { 116,1418 }, { 117,1418 },
+ { 118,1418 }, { 119,1418 }, { 120,1418 }, { 121,1418 }, { 122,1418 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 127,1418 },
+ { 128,1418 }, { 129,1418 }, { 130,1418 }, { 131,1418 }, { 132,1418 },
+ { 133,1418 }, { 134,1418 }, { 135,1418 }, { 136,1418 }, { 137,1418 },
+ { 138,1418 }, { 139,1418 }, { 140,1418 }, { 141,1418 }, { 142,1418 },
+
+ { 143,1418 }, { 144,1418 }, { 145,1418 }, { 146,1418 }, { 147,1418 },
+ { 148,1418 }, { 149,1418 }, { 150,1418 }, { 151,1418 }, { 152,1418 },
+ { 153,1418 }, { 154,1418 }, { 155,1418 }, { 156,1418 }, { 157,1418 },
+ { 158,1418 }, { 159,1418 }, { 160,1418 }, { 161,1418 }, { 162,1418 },
+ { 163,1418 }, { 164,1418 }, { 165,1418 }, { 166,1418 }, { 167,1418 },
+ { 168,1418 }, { 169,1418 }, { 170,1418 }, { 171,1418 }, { 172,1418 },
+ { 173,1418 }, { 174,1418 }, { 175,1418 }, { 176,1418 }, { 177,1418 },
+ { 178,1418 }, { 179,1418 }, { 180,1418 }, { 181,1418 }, { 182,1418 },
+ { 183,1418 }, { 184,1418 }, { 185,1418 }, { 186,1418 }, { 187,1418 },
+ { 188,1418 }, { 189,1418 }, { 190,1418 }, { 191,1418 }, { 192,1418 },
+
+ { 193,1418 }, { 194,1418 }, { 195,1418 }, { 196,1418 }, { 197,1418 },
+ { 198,1418 }, { 199,1418 }, { 200,1418 }, { 201,1418 }, { 202,1418 },
+ { 203,1418 }, { 204,1418 }, { 205,1418 }, { 206,1418 }, { 207,1418 },
+ { 208,1418 }, { 209,1418 }, { 210,1418 }, { 211,1418 }, { 212,1418 },
+ { 213,1418 }, { 214,1418 }, { 215,1418 }, { 216,1418 }, { 217,1418 },
+ { 218,1418 }, { 219,1418 }, { 220,1418 }, { 221,1418 }, { 222,1418 },
+ { 223,1418 }, { 224,1418 }, { 225,1418 }, { 226,1418 }, { 227,1418 },
+ { 228,1418 }, { 229,1418 }, { 230,1418 }, { 231,1418 }, { 232,1418 },
+ { 233,1418 }, { 234,1418 }, { 235,1418 }, { 236,1418 }, { 237,1418 },
+ { 238,1418 }, { 239,1418 }, { 240,1418 }, { 241,1418 }, { 242,1418 },
+
+ { 243,1418 }, { 244,1418 }, { 245,1418 }, { 246,1418 }, { 247,1418 },
+ { 248,1418 }, { 249,1418 }, { 250,1418 }, { 251,1418 }, { 252,1418 },
+ { 253,1418 }, { 254,1418 }, { 255,1418 }, { 256,1418 }, {   0,   0 },
+ {   0,2338 }, {   1,-10842 }, {   2,-10842 }, {   3,-10842 }, {   4,-10842 },
+ {   5,-10842 }, {   6,-10842 }, {   7,-10842 }, {   8,-10842 }, {   9,-10867 },
+ {  10,-10867 }, {  11,-10842 }, {  12,-10842 }, {  13,-10867 }, {  14,-10842 },
+ {  15,-10842 }, {  16,-10842 }, {  17,-10842 }, {  18,-10842 }, {  19,-10842 },
+ {  20,-10842 }, {  21,-10842 }, {  22,-10842 }, {  23,-10842 }, {  24,-10842 },
+ {  25,-10842 }, {  26,-10842 }, {  27,-10842 }, {  28,-10842 }, {  29,-10842 },
+ {  30,-10842 }, {  31,-10842 }, {  32,-10867 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {  36,-10842 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  41,-10867 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,-10842 }, {  46,-10867 }, {  47,-10867 }, {  48,-10842 }, {  49,-10842 },
+ {  50,-10842 }, {  51,-10842 }, {  52,-10842 }, {  53,-10842 }, {  54,-10842 },
+ {  55,-10842 }, {  56,-10842 }, {  57,-10842 }, {  58,-10842 }, {   0,   0 },
+ {   0,   0 }, {  61,-10867 }, {   0,   0 }, {  63,-10842 }, {   0,   0 },
+ {  65,-10842 }, {  66,-10842 }, {  67,-10842 }, {  68,-10842 }, {  69,-10842 },
+ {  70,-10842 }, {  71,-10842 }, {  72,-10842 }, {  73,-10842 }, {  74,-10842 },
+ {  75,-10842 }, {  76,-10842 }, {  77,-10842 }, {  78,-10842 }, {  79,-10842 },
+ {  80,-10842 }, {  81,-10842 }, {  82,-10842 }, {  83,-10842 }, {  84,-10842 },
+
+ {  85,-10842 }, {  86,-10842 }, {  87,-10842 }, {  88,-10842 }, {  89,-10842 },
+ {  90,-10842 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,-10842 }, {   0,   0 }, {  97,-10842 }, {  98,-10842 }, {  99,-10842 },
+ { 100,-10842 }, { 101,-10842 }, { 102,-10842 }, { 103,-10842 }, { 104,-10842 },
+ { 105,-10842 }, { 106,-10842 }, { 107,-10842 }, { 108,-10842 }, { 109,-10842 },
+ { 110,1418 }, { 111,-10842 }, { 112,-10842 }, { 113,-10842 }, { 114,-10842 },
+ { 115,-10842 }, { 116,-10842 }, { 117,-10842 }, { 118,-10842 }, { 119,-10842 },
+ { 120,-10842 }, { 121,-10842 }, { 122,-10842 }, {   0,   0 }, { 124,-10867 },
+ { 125,-10867 }, { 126,-10867 }, { 127,-10842 }, { 128,-10842 }, { 129,-10842 },
+ { 130,-10842 }, { 131,-10842 }, { 132,-10842 }, { 133,-10842 }, { 134,-10842 },
+
+ { 135,-10842 }, { 136,-10842 }, { 137,-10842 }, { 138,-10842 }, { 139,-10842 },
+ { 140,-10842 }, { 141,-10842 }, { 142,-10842 }, { 143,-10842 }, { 144,-10842 },
+ { 145,-10842 }, { 146,-10842 }, { 147,-10842 }, { 148,-10842 }, { 149,-10842 },
+ { 150,-10842 }, { 151,-10842 }, { 152,-10842 }, { 153,-10842 }, { 154,-10842 },
+ { 155,-10842 }, { 156,-10842 }, { 157,-10842 }, { 158,-10842 }, { 159,-10842 },
+ { 160,-10842 }, { 161,-10842 }, { 162,-10842 }, { 163,-10842 }, { 164,-10842 },
+ { 165,-10842 }, { 166,-10842 }, { 167,-10842 }, { 168,-10842 }, { 169,-10842 },
+ { 170,-10842 }, { 171,-10842 }, { 172,-10842 }, { 173,-10842 }, { 174,-10842 },
+ { 175,-10842 }, { 176,-10842 }, { 177,-10842 }, { 178,-10842 }, { 179,-10842 },
+ { 180,-10842 }, { 181,-10842 }, { 182,-10842 }, { 183,-10842 }, { 184,-10842 },
+
+ { 185,-10842 }, { 186,-10842 }, { 187,-10842 }, { 188,-10842 }, { 189,-10842 },
+ { 190,-10842 }, { 191,-10842 }, { 192,-10842 }, { 193,-10842 }, { 194,-10842 },
+ { 195,-10842 }, { 196,-10842 }, { 197,-10842 }, { 198,-10842 }, { 199,-10842 },
+ { 200,-10842 }, { 201,-10842 }, { 202,-10842 }, { 203,-10842 }, { 204,-10842 },
+ { 205,-10842 }, { 206,-10842 }, { 207,-10842 }, { 208,-10842 }, { 209,-10842 },
+ { 210,-10842 }, { 211,-10842 }, { 212,-10842 }, { 213,-10842 }, { 214,-10842 },
+ { 215,-10842 }, { 216,-10842 }, { 217,-10842 }, { 218,-10842 }, { 219,-10842 },
+ { 220,-10842 }, { 221,-10842 }, { 222,-10842 }, { 223,-10842 }, { 224,-10842 },
+ { 225,-10842 }, { 226,-10842 }, { 227,-10842 }, { 228,-10842 }, { 229,-10842 },
+ { 230,-10842 }, { 231,-10842 }, { 232,-10842 }, { 233,-10842 }, { 234,-10842 },
+
+ { 235,-10842 }, { 236,-10842 }, { 237,-10842 }, { 238,-10842 }, { 239,-10842 },
+ { 240,-10842 }, { 241,-10842 }, { 242,-10842 }, { 243,-10842 }, { 244,-10842 },
+ { 245,-10842 }, { 246,-10842 }, { 247,-10842 }, { 248,-10842 }, { 249,-10842 },
+ { 250,-10842 }, { 251,-10842 }, { 252,-10842 }, { 253,-10842 }, { 254,-10842 },
+ { 255,-10842 }, { 256,-10842 }, {   0,  26 }, {   0,2080 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   9,1420 }, {  10,1420 }, {   0,   0 },
+ {   0,   0 }, {  13,1420 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  32,1420 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,1422 }, { 126,1424 },
+
+ {   0,   0 }, {   0,1952 }, {   1,-2344 }, {   2,-2344 }, {   3,-2344 },
+ {   4,-2344 }, {   5,-2344 }, {   6,-2344 }, {   7,-2344 }, {   8,-2344 },
+ {   9,-2344 }, {  10,-2344 }, {  11,-2344 }, {  12,-2344 }, {  13,-2344 },
+ {  14,-2344 }, {  15,-2344 }, {  16,-2344 }, {  17,-2344 }, {  18,-2344 },
+ {  19,-2344 }, {  20,-2344 }, {  21,-2344 }, {  22,-2344 }, {  23,-2344 },
+ {  24,-2344 }, {  25,-2344 }, {  26,-2344 }, {  27,-2344 }, {  28,-2344 },
+ {  29,-2344 }, {  30,-2344 }, {  31,-2344 }, {  32,-2344 }, {  33,-2344 },
+ {  34,-2344 }, {  35,-2344 }, {  36,-2344 }, {  37,-2344 }, {  38,-2344 },
+ {  39,-2344 }, {  40,-2344 }, {  41,-2344 }, {  42,-2344 }, {  43,-2344 },
+ {  44,-2344 }, {  45,   0 }, {  46,-2344 }, {  47,-2344 }, {  48,-2344 },
+
+ {  49,-2344 }, {  50,-2344 }, {  51,-2344 }, {  52,-2344 }, {  53,-2344 },
+ {  54,-2344 }, {  55,-2344 }, {  56,-2344 }, {  57,-2344 }, {  58,-2344 },
+ {  59,-2344 }, {  60,-2344 }, {  61,-2344 }, {  62,-2344 }, {  63,-2344 },
+ {  64,-2344 }, {  65,-2344 }, {  66,-2344 }, {  67,-2344 }, {  68,-2344 },
+ {  69,-2344 }, {  70,-2344 }, {  71,-2344 }, {  72,-2344 }, {  73,-2344 },
+ {  74,-2344 }, {  75,-2344 }, {  76,-2344 }, {  77,-2344 }, {  78,-2344 },
+ {  79,-2344 }, {  80,-2344 }, {  81,-2344 }, {  82,-2344 }, {  83,-2344 },
+ {  84,-2344 }, {  85,-2344 }, {  86,-2344 }, {  87,-2344 }, {  88,-2344 },
+ {  89,-2344 }, {  90,-2344 }, {  91,-2344 }, {  92,-2344 }, {  93,-2344 },
+ {  94,-2344 }, {  95,-2344 }, {  96,-2344 }, {  97,-2344 }, {  98,-2344 },
+
+ {  99,-2344 }, { 100,-2344 }, { 101,-2344 }, { 102,-2344 }, { 103,-2344 },
+ { 104,-2344 }, { 105,-2344 }, { 106,-2344 }, { 107,-2344 }, { 108,-2344 },
+ { 109,-2344 }, { 110,-2344 }, { 111,-2344 }, { 112,-2344 }, { 113,-2344 },
+ { 114,-2344 }, { 115,-2344 }, { 116,-2344 }, { 117,-2344 }, { 118,-2344 },
+ { 119,-2344 }, { 120,-2344 }, { 121,-2344 }, { 122,-2344 }, { 123,-2344 },
+ { 124,-2344 }, { 125, 258 }, { 126, 516 }, { 127,-2344 }, { 128,-2344 },
+ { 129,-2344 }, { 130,-2344 }, { 131,-2344 }, { 132,-2344 }, { 133,-2344 },
+ { 134,-2344 }, { 135,-2344 }, { 136,-2344 }, { 137,-2344 }, { 138,-2344 },
+ { 139,-2344 }, { 140,-2344 }, { 141,-2344 }, { 142,-2344 }, { 143,-2344 },
+ { 144,-2344 }, { 145,-2344 }, { 146,-2344 }, { 147,-2344 }, { 148,-2344 },
+
+ { 149,-2344 }, { 150,-2344 }, { 151,-2344 }, { 152,-2344 }, { 153,-2344 },
+ { 154,-2344 }, { 155,-2344 }, { 156,-2344 }, { 157,-2344 }, { 158,-2344 },
+ { 159,-2344 }, { 160,-2344 }, { 161,-2344 }, { 162,-2344 }, { 163,-2344 },
+ { 164,-2344 }, { 165,-2344 }, { 166,-2344 }, { 167,-2344 }, { 168,-2344 },
+ { 169,-2344 }, { 170,-2344 }, { 171,-2344 }, { 172,-2344 }, { 173,-2344 },
+ { 174,-2344 }, { 175,-2344 }, { 176,-2344 }, { 177,-2344 }, { 178,-2344 },
+ { 179,-2344 }, { 180,-2344 }, { 181,-2344 }, { 182,-2344 }, { 183,-2344 },
+ { 184,-2344 }, { 185,-2344 }, { 186,-2344 }, { 187,-2344 }, { 188,-2344 },
+ { 189,-2344 }, { 190,-2344 }, { 191,-2344 }, { 192,-2344 }, { 193,-2344 },
+ { 194,-2344 }, { 195,-2344 }, { 196,-2344 }, { 197,-2344 }, { 198,-2344 },
+
+ { 199,-2344 }, { 200,-2344 }, { 201,-2344 }, { 202,-2344 }, { 203,-2344 },
+ { 204,-2344 }, { 205,-2344 }, { 206,-2344 }, { 207,-2344 }, { 208,-2344 },
+ { 209,-2344 }, { 210,-2344 }, { 211,-2344 }, { 212,-2344 }, { 213,-2344 },
+ { 214,-2344 }, { 215,-2344 }, { 216,-2344 }, { 217,-2344 }, { 218,-2344 },
+ { 219,-2344 }, { 220,-2344 }, { 221,-2344 }, { 222,-2344 }, { 223,-2344 },
+ { 224,-2344 }, { 225,-2344 }, { 226,-2344 }, { 227,-2344 }, { 228,-2344 },
+ { 229,-2344 }, { 230,-2344 }, { 231,-2344 }, { 232,-2344 }, { 233,-2344 },
+ { 234,-2344 }, { 235,-2344 }, { 236,-2344 }, { 237,-2344 }, { 238,-2344 },
+ { 239,-2344 }, { 240,-2344 }, { 241,-2344 }, { 242,-2344 }, { 243,-2344 },
+ { 244,-2344 }, { 245,-2344 }, { 246,-2344 }, { 247,-2344 }, { 248,-2344 },
+
+ { 249,-2344 }, { 250,-2344 }, { 251,-2344 }, { 252,-2344 }, { 253,-2344 },
+ { 254,-2344 }, { 255,-2344 }, { 256,-2344 }, {   0,   0 }, {   0,1694 },
+ {   1,-2602 }, {   2,-2602 }, {   3,-2602 }, {   4,-2602 }, {   5,-2602 },
+ {   6,-2602 }, {   7,-2602 }, {   8,-2602 }, {   9,-2602 }, {  10,-2602 },
+ {  11,-2602 }, {  12,-2602 }, {  13,-2602 }, {  14,-2602 }, {  15,-2602 },
+ {  16,-2602 }, {  17,-2602 }, {  18,-2602 }, {  19,-2602 }, {  20,-2602 },
+ {  21,-2602 }, {  22,-2602 }, {  23,-2602 }, {  24,-2602 }, {  25,-2602 },
+ {  26,-2602 }, {  27,-2602 }, {  28,-2602 }, {  29,-2602 }, {  30,-2602 },
+ {  31,-2602 }, {  32,-2602 }, {  33,-2602 }, {  34,-2602 }, {  35,-2602 },
+ {  36,-2602 }, {  37,-2602 }, {  38,-2602 }, {  39,-2602 }, {  40,-2602 },
+
+ {  41,-2602 }, {  42,-2602 }, {  43,-2602 }, {  44,-2602 }, {  45,-2344 },
+ {  46,-2602 }, {  47,-2602 }, {  48,-2602 }, {  49,-2602 }, {  50,-2602 },
+ {  51,-2602 }, {  52,-2602 }, {  53,-2602 }, {  54,-2602 }, {  55,-2602 },
+ {  56,-2602 }, {  57,-2602 }, {  58,-2602 }, {  59,-2602 }, {  60,-2602 },
+ {  61,-2602 }, {  62,-2602 }, {  63,-2602 }, {  64,-2602 }, {  65,-2602 },
+ {  66,-2602 }, {  67,-2602 }, {  68,-2602 }, {  69,-2602 }, {  70,-2602 },
+ {  71,-2602 }, {  72,-2602 }, {  73,-2602 }, {  74,-2602 }, {  75,-2602 },
+ {  76,-2602 }, {  77,-2602 }, {  78,-2602 }, {  79,-2602 }, {  80,-2602 },
+ {  81,-2602 }, {  82,-2602 }, {  83,-2602 }, {  84,-2602 }, {  85,-2602 },
+ {  86,-2602 }, {  87,-2602 }, {  88,-2602 }, {  89,-2602 }, {  90,-2602 },
+
+ {  91,-2602 }, {  92,-2602 }, {  93,-2602 }, {  94,-2602 }, {  95,-2602 },
+ {  96,-2602 }, {  97,-2602 }, {  98,-2602 }, {  99,-2602 }, { 100,-2602 },
+ { 101,-2602 }, { 102,-2602 }, { 103,-2602 }, { 104,-2602 }, { 105,-2602 },
+ { 106,-2602 }, { 107,-2602 }, { 108,-2602 }, { 109,-2602 }, { 110,-2602 },
+ { 111,-2602 }, { 112,-2602 }, { 113,-2602 }, { 114,-2602 }, { 115,-2602 },
+ { 116,-2602 }, { 117,-2602 }, { 118,-2602 }, { 119,-2602 }, { 120,-2602 },
+ { 121,-2602 }, { 122,-2602 }, { 123,-2602 }, { 124,-2602 }, { 125,1049 },
+ { 126,-2602 }, { 127,-2602 }, { 128,-2602 }, { 129,-2602 }, { 130,-2602 },
+ { 131,-2602 }, { 132,-2602 }, { 133,-2602 }, { 134,-2602 }, { 135,-2602 },
+ { 136,-2602 }, { 137,-2602 }, { 138,-2602 }, { 139,-2602 }, { 140,-2602 },
+
+ { 141,-2602 }, { 142,-2602 }, { 143,-2602 }, { 144,-2602 }, { 145,-2602 },
+ { 146,-2602 }, { 147,-2602 }, { 148,-2602 }, { 149,-2602 }, { 150,-2602 },
+ { 151,-2602 }, { 152,-2602 }, { 153,-2602 }, { 154,-2602 }, { 155,-2602 },
+ { 156,-2602 }, { 157,-2602 }, { 158,-2602 }, { 159,-2602 }, { 160,-2602 },
+ { 161,-2602 }, { 162,-2602 }, { 163,-2602 }, { 164,-2602 }, { 165,-2602 },
+ { 166,-2602 }, { 167,-2602 }, { 168,-2602 }, { 169,-2602 }, { 170,-2602 },
+ { 171,-2602 }, { 172,-2602 }, { 173,-2602 }, { 174,-2602 }, { 175,-2602 },
+ { 176,-2602 }, { 177,-2602 }, { 178,-2602 }, { 179,-2602 }, { 180,-2602 },
+ { 181,-2602 }, { 182,-2602 }, { 183,-2602 }, { 184,-2602 }, { 185,-2602 },
+ { 186,-2602 }, { 187,-2602 }, { 188,-2602 }, { 189,-2602 }, { 190,-2602 },
+
+ { 191,-2602 }, { 192,-2602 }, { 193,-2602 }, { 194,-2602 }, { 195,-2602 },
+ { 196,-2602 }, { 197,-2602 }, { 198,-2602 }, { 199,-2602 }, { 200,-2602 },
+ { 201,-2602 }, { 202,-2602 }, { 203,-2602 }, { 204,-2602 }, { 205,-2602 },
+ { 206,-2602 }, { 207,-2602 }, { 208,-2602 }, { 209,-2602 }, { 210,-2602 },
+ { 211,-2602 }, { 212,-2602 }, { 213,-2602 }, { 214,-2602 }, { 215,-2602 },
+ { 216,-2602 }, { 217,-2602 }, { 218,-2602 }, { 219,-2602 }, { 220,-2602 },
+ { 221,-2602 }, { 222,-2602 }, { 223,-2602 }, { 224,-2602 }, { 225,-2602 },
+ { 226,-2602 }, { 227,-2602 }, { 228,-2602 }, { 229,-2602 }, { 230,-2602 },
+ { 231,-2602 }, { 232,-2602 }, { 233,-2602 }, { 234,-2602 }, { 235,-2602 },
+ { 236,-2602 }, { 237,-2602 }, { 238,-2602 }, { 239,-2602 }, { 240,-2602 },
+
+ { 241,-2602 }, { 242,-2602 }, { 243,-2602 }, { 244,-2602 }, { 245,-2602 },
+ { 246,-2602 }, { 247,-2602 }, { 248,-2602 }, { 249,-2602 }, { 250,-2602 },
+ { 251,-2602 }, { 252,-2602 }, { 253,-2602 }, { 254,-2602 }, { 255,-2602 },
+ { 256,-2602 }, {   0,   0 }, {   0,1436 }, {   1,-2860 }, {   2,-2860 },
+ {   3,-2860 }, {   4,-2860 }, {   5,-2860 }, {   6,-2860 }, {   7,-2860 },
+ {   8,-2860 }, {   9,-2860 }, {  10,-2860 }, {  11,-2860 }, {  12,-2860 },
+ {  13,-2860 }, {  14,-2860 }, {  15,-2860 }, {  16,-2860 }, {  17,-2860 },
+ {  18,-2860 }, {  19,-2860 }, {  20,-2860 }, {  21,-2860 }, {  22,-2860 },
+ {  23,-2860 }, {  24,-2860 }, {  25,-2860 }, {  26,-2860 }, {  27,-2860 },
+ {  28,-2860 }, {  29,-2860 }, {  30,-2860 }, {  31,-2860 }, {  32,-2860 },
+
+ {  33,-2860 }, {  34,-2860 }, {  35,-2860 }, {  36,-2860 }, {  37,-2860 },
+ {  38,-2860 }, {  39,-2860 }, {  40,-2860 }, {  41,-2860 }, {  42,-2860 },
+ {  43,-2860 }, {  44,-2860 }, {  45,-2602 }, {  46,-2860 }, {  47,-2860 },
+ {  48,-2860 }, {  49,-2860 }, {  50,-2860 }, {  51,-2860 }, {  52,-2860 },
+ {  53,-2860 }, {  54,-2860 }, {  55,-2860 }, {  56,-2860 }, {  57,-2860 },
+ {  58,-2860 }, {  59,-2860 }, {  60,-2860 }, {  61,-2860 }, {  62,-2860 },
+ {  63,-2860 }, {  64,-2860 }, {  65,-2860 }, {  66,-2860 }, {  67,-2860 },
+ {  68,-2860 }, {  69,-2860 }, {  70,-2860 }, {  71,-2860 }, {  72,-2860 },
+ {  73,-2860 }, {  74,-2860 }, {  75,-2860 }, {  76,-2860 }, {  77,-2860 },
+ {  78,-2860 }, {  79,-2860 }, {  80,-2860 }, {  81,-2860 }, {  82,-2860 },
+
+ {  83,-2860 }, {  84,-2860 }, {  85,-2860 }, {  86,-2860 }, {  87,-2860 },
+ {  88,-2860 }, {  89,-2860 }, {  90,-2860 }, {  91,-2860 }, {  92,-2860 },
+ {  93,-2860 }, {  94,-2860 }, {  95,-2860 }, {  96,-2860 }, {  97,-2860 },
+ {  98,-2860 }, {  99,-2860 }, { 100,-2860 }, { 101,-2860 }, { 102,-2860 },
+ { 103,-2860 }, { 104,-2860 }, { 105,-2860 }, { 106,-2860 }, { 107,-2860 },
+ { 108,-2860 }, { 109,-2860 }, { 110,-2860 }, { 111,-2860 }, { 112,-2860 },
+ { 113,-2860 }, { 114,-2860 }, { 115,-2860 }, { 116,-2860 }, { 117,-2860 },
+ { 118,-2860 }, { 119,-2860 }, { 120,-2860 }, { 121,-2860 }, { 122,-2860 },
+ { 123,-2860 }, { 124,-2860 }, { 125,-258 }, { 126,-2860 }, { 127,-2860 },
+ { 128,-2860 }, { 129,-2860 }, { 130,-2860 }, { 131,-2860 }, { 132,-2860 },
+
+ { 133,-2860 }, { 134,-2860 }, { 135,-2860 }, { 136,-2860 }, { 137,-2860 },
+ { 138,-2860 }, { 139,-2860 }, { 140,-2860 }, { 141,-2860 }, { 142,-2860 },
+ { 143,-2860 }, { 144,-2860 }, { 145,-2860 }, { 146,-2860 }, { 147,-2860 },
+ { 148,-2860 }, { 149,-2860 }, { 150,-2860 }, { 151,-2860 }, { 152,-2860 },
+ { 153,-2860 }, { 154,-2860 }, { 155,-2860 }, { 156,-2860 }, { 157,-2860 },
+ { 158,-2860 }, { 159,-2860 }, { 160,-2860 }, { 161,-2860 }, { 162,-2860 },
+ { 163,-2860 }, { 164,-2860 }, { 165,-2860 }, { 166,-2860 }, { 167,-2860 },
+ { 168,-2860 }, { 169,-2860 }, { 170,-2860 }, { 171,-2860 }, { 172,-2860 },
+ { 173,-2860 }, { 174,-2860 }, { 175,-2860 }, { 176,-2860 }, { 177,-2860 },
+ { 178,-2860 }, { 179,-2860 }, { 180,-2860 }, { 181,-2860 }, { 182,-2860 },
+
+ { 183,-2860 }, { 184,-2860 }, { 185,-2860 }, { 186,-2860 }, { 187,-2860 },
+ { 188,-2860 }, { 189,-2860 }, { 190,-2860 }, { 191,-2860 }, { 192,-2860 },
+ { 193,-2860 }, { 194,-2860 }, { 195,-2860 }, { 196,-2860 }, { 197,-2860 },
+ { 198,-2860 }, { 199,-2860 }, { 200,-2860 }, { 201,-2860 }, { 202,-2860 },
+ { 203,-2860 }, { 204,-2860 }, { 205,-2860 }, { 206,-2860 }, { 207,-2860 },
+ { 208,-2860 }, { 209,-2860 }, { 210,-2860 }, { 211,-2860 }, { 212,-2860 },
+ { 213,-2860 }, { 214,-2860 }, { 215,-2860 }, { 216,-2860 }, { 217,-2860 },
+ { 218,-2860 }, { 219,-2860 }, { 220,-2860 }, { 221,-2860 }, { 222,-2860 },
+ { 223,-2860 }, { 224,-2860 }, { 225,-2860 }, { 226,-2860 }, { 227,-2860 },
+ { 228,-2860 }, { 229,-2860 }, { 230,-2860 }, { 231,-2860 }, { 232,-2860 },
+
+ { 233,-2860 }, { 234,-2860 }, { 235,-2860 }, { 236,-2860 }, { 237,-2860 },
+ { 238,-2860 }, { 239,-2860 }, { 240,-2860 }, { 241,-2860 }, { 242,-2860 },
+ { 243,-2860 }, { 244,-2860 }, { 245,-2860 }, { 246,-2860 }, { 247,-2860 },
+ { 248,-2860 }, { 249,-2860 }, { 250,-2860 }, { 251,-2860 }, { 252,-2860 },
+ { 253,-2860 }, { 254,-2860 }, { 255,-2860 }, { 256,-2860 }, {   0,   0 },
+ {   0,1178 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   0,   0 },
+ {   0,   0 }, {  11,   0 }, {  12,   0 }, {   0,   0 }, {  14,   0 },
+ {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
+ {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 },
 
- {   0,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 },
- { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 },
- { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 },
- { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 },
- { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 },
- { 121,   0 }, { 122,   0 }, {   0,   0 }, {   0,   0 }, { 125, 535 },
- {   0,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 },
- { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 },
- { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 },
- { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 },
+ {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 },
+ {  30,   0 }, {  31,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,   0 }, {   0,   0 }, {   0,   0 }, {  48,   0 }, {  49,   0 },
+ {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 },
+ {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  63,   0 }, {   0,   0 },
+ {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 },
+ {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 },
 
- { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 },
- { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 },
- { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 },
- { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 },
- { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 },
- { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 },
- { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 },
- { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 },
- { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 },
- { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 },
+ {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 },
+ {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 },
+ {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 },
+ {  90,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,   0 }, {   0,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 },
+ { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 },
+ { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 },
+ { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 },
+ { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 },
+ { 120,   0 }, { 121,   0 }, { 122,   0 }, {   0,   0 }, {   0,   0 },
 
- { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 },
- { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 },
- { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 },
- { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 },
- { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 },
- { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 },
- { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 },
- { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 },
- { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 },
- { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
+ { 125, 535 }, {   0,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 },
+ { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 },
+ { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 },
+ { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 },
+ { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 },
+ { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 },
+ { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 },
+ { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 },
+ { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 },
+ { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 },
 
- { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
- { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
- { 256,   0 }, {   0,   0 }, {   0, 920 }, {   1,-11114 }, {   2,-11114 },
- {   3,-11114 }, {   4,-11114 }, {   5,-11114 }, {   6,-11114 }, {   7,-11114 },
- {   8,-11114 }, {   9,-11139 }, {  10,-11139 }, {  11,-11114 }, {  12,-11114 },
- {  13,-11139 }, {  14,-11114 }, {  15,-11114 }, {  16,-11114 }, {  17,-11114 },
- {  18,-11114 }, {  19,-11114 }, {  20,-11114 }, {  21,-11114 }, {  22,-11114 },
- {  23,-11114 }, {  24,-11114 }, {  25,-11114 }, {  26,-11114 }, {  27,-11114 },
- {  28,-11114 }, {  29,-11114 }, {  30,-11114 }, {  31,-11114 }, {  32,-11139 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-11114 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-11139 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-11114 }, {  46,-11139 }, {  47,-11139 },
- {  48,-11114 }, {  49,-11114 }, {  50,-11114 }, {  51,-11114 }, {  52,-11114 },
- {  53,-11114 }, {  54,-11114 }, {  55,-11114 }, {  56,-11114 }, {  57,-11114 },
- {  58,-11114 }, {   0,   0 }, {   0,   0 }, {  61,-11139 }, {   0,   0 },
- {  63,-11114 }, {   0,   0 }, {  65,-11114 }, {  66,-11114 }, {  67,-11114 },
- {  68,-11114 }, {  69,-11114 }, {  70,-11114 }, {  71,-11114 }, {  72,-11114 },
- {  73,-11114 }, {  74,-11114 }, {  75,-11114 }, {  76,-11114 }, {  77,-11114 },
- {  78,-11114 }, {  79,-11114 }, {  80,-11114 }, {  81,-11114 }, {  82,-11114 },
- {  83,-11114 }, {  84,-11114 }, {  85,-11114 }, {  86,-11114 }, {  87,-11114 },
-
- {  88,-11114 }, {  89,-11114 }, {  90,-11114 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-11114 }, {   0,   0 }, {  97,-11114 },
- {  98,-11114 }, {  99,-11114 }, { 100,-11114 }, { 101, 404 }, { 102,-11114 },
- { 103,-11114 }, { 104,-11114 }, { 105,-11114 }, { 106,-11114 }, { 107,-11114 },
- { 108,-11114 }, { 109,-11114 }, { 110,-11114 }, { 111,-11114 }, { 112,-11114 },
- { 113,-11114 }, { 114,-11114 }, { 115,-11114 }, { 116,-11114 }, { 117,-11114 },
- { 118,-11114 }, { 119,-11114 }, { 120,-11114 }, { 121,-11114 }, { 122,-11114 },
- {   0,   0 }, { 124,-11139 }, { 125,-11139 }, { 126,-11139 }, { 127,-11114 },
- { 128,-11114 }, { 129,-11114 }, { 130,-11114 }, { 131,-11114 }, { 132,-11114 },
- { 133,-11114 }, { 134,-11114 }, { 135,-11114 }, { 136,-11114 }, { 137,-11114 },
-
- { 138,-11114 }, { 139,-11114 }, { 140,-11114 }, { 141,-11114 }, { 142,-11114 },
- { 143,-11114 }, { 144,-11114 }, { 145,-11114 }, { 146,-11114 }, { 147,-11114 },
- { 148,-11114 }, { 149,-11114 }, { 150,-11114 }, { 151,-11114 }, { 152,-11114 },
- { 153,-11114 }, { 154,-11114 }, { 155,-11114 }, { 156,-11114 }, { 157,-11114 },
- { 158,-11114 }, { 159,-11114 }, { 160,-11114 }, { 161,-11114 }, { 162,-11114 },
- { 163,-11114 }, { 164,-11114 }, { 165,-11114 }, { 166,-11114 }, { 167,-11114 },
- { 168,-11114 }, { 169,-11114 }, { 170,-11114 }, { 171,-11114 }, { 172,-11114 },
- { 173,-11114 }, { 174,-11114 }, { 175,-11114 }, { 176,-11114 }, { 177,-11114 },
- { 178,-11114 }, { 179,-11114 }, { 180,-11114 }, { 181,-11114 }, { 182,-11114 },
- { 183,-11114 }, { 184,-11114 }, { 185,-11114 }, { 186,-11114 }, { 187,-11114 },
-
- { 188,-11114 }, { 189,-11114 }, { 190,-11114 }, { 191,-11114 }, { 192,-11114 },
- { 193,-11114 }, { 194,-11114 }, { 195,-11114 }, { 196,-11114 }, { 197,-11114 },
- { 198,-11114 }, { 199,-11114 }, { 200,-11114 }, { 201,-11114 }, { 202,-11114 },
- { 203,-11114 }, { 204,-11114 }, { 205,-11114 }, { 206,-11114 }, { 207,-11114 },
- { 208,-11114 }, { 209,-11114 }, { 210,-11114 }, { 211,-11114 }, { 212,-11114 },
- { 213,-11114 }, { 214,-11114 }, { 215,-11114 }, { 216,-11114 }, { 217,-11114 },
- { 218,-11114 }, { 219,-11114 }, { 220,-11114 }, { 221,-11114 }, { 222,-11114 },
- { 223,-11114 }, { 224,-11114 }, { 225,-11114 }, { 226,-11114 }, { 227,-11114 },
- { 228,-11114 }, { 229,-11114 }, { 230,-11114 }, { 231,-11114 }, { 232,-11114 },
- { 233,-11114 }, { 234,-11114 }, { 235,-11114 }, { 236,-11114 }, { 237,-11114 },
-
- { 238,-11114 }, { 239,-11114 }, { 240,-11114 }, { 241,-11114 }, { 242,-11114 },
- { 243,-11114 }, { 244,-11114 }, { 245,-11114 }, { 246,-11114 }, { 247,-11114 },
- { 248,-11114 }, { 249,-11114 }, { 250,-11114 }, { 251,-11114 }, { 252,-11114 },
- { 253,-11114 }, { 254,-11114 }, { 255,-11114 }, { 256,-11114 }, {   0,   0 },
- {   0, 662 }, {   0,   0 }, {   0, 660 }, {   0,   0 }, {   0, 658 },
- {   0,   0 }, {   0, 656 }, {   0,  25 }, {   0, 654 }, {   9,   2 },
- {  10,   2 }, {   9,   0 }, {  10,   0 }, {  13,   2 }, {   0,   0 },
- {  13,   0 }, {   0,   0 }, {   0, 645 }, {   0,   0 }, {   0, 643 },
- {   0,  23 }, {   0, 641 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {  32,   2 }, {   0,   0 }, {  32,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0, 608 },
- {   0,   0 }, {   0, 606 }, {   0,   0 }, {   0, 604 }, {   0,  12 },
- {   0, 602 }, {   0,   0 }, {   0,   0 }, {   0, 599 }, {   0,  45 },
- {   0, 597 }, {   0,   9 }, {   0, 595 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 125,   4 }, { 126,   6 }, { 125,   2 }, { 126,   4 }, { 125,  17 },
-
- {   0,   0 }, { 125,  -2 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 125,  37 }, { 126,  39 }, { 125,  39 },
- {   0,   0 }, {   0, 516 }, {   1,-11518 }, {   2,-11518 }, {   3,-11518 },
- {   4,-11518 }, {   5,-11518 }, {   6,-11518 }, {   7,-11518 }, {   8,-11518 },
- {   9,-11543 }, {  10,-11543 }, {  11,-11518 }, {  12,-11518 }, {  13,-11543 },
- {  14,-11518 }, {  15,-11518 }, {  16,-11518 }, {  17,-11518 }, {  18,-11518 },
- {  19,-11518 }, {  20,-11518 }, {  21,-11518 }, {  22,-11518 }, {  23,-11518 },
- {  24,-11518 }, {  25,-11518 }, {  26,-11518 }, {  27,-11518 }, {  28,-11518 },
- {  29,-11518 }, {  30,-11518 }, {  31,-11518 }, {  32,-11543 }, { 125,   6 },
-
- {   0,   0 }, { 125,  -2 }, {  36,-11518 }, { 125,   5 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-11543 }, { 125,   4 }, {   0,   0 },
- {   0,   0 }, {  45,-11518 }, {  46,-11543 }, {  47,-11543 }, {  48,-11518 },
- {  49,-11518 }, {  50,-11518 }, {  51,-11518 }, {  52,-11518 }, {  53,-11518 },
- {  54,-11518 }, {  55,-11518 }, {  56,-11518 }, {  57,-11518 }, {  58,-11518 },
- {   0,   0 }, {   0,   0 }, {  61,-11543 }, {   0,   0 }, {  63,-11518 },
- {   0,   0 }, {  65,-11518 }, {  66,-11518 }, {  67,-11518 }, {  68,-11518 },
- {  69,-11518 }, {  70,-11518 }, {  71,-11518 }, {  72,-11518 }, {  73,-11518 },
- {  74,-11518 }, {  75,-11518 }, {  76,-11518 }, {  77,-11518 }, {  78,-11518 },
- {  79,-11518 }, {  80,-11518 }, {  81,-11518 }, {  82,-11518 }, {  83,-11518 },
-
- {  84,-11518 }, {  85,-11518 }, {  86,-11518 }, {  87,-11518 }, {  88,-11518 },
- {  89,-11518 }, {  90,-11518 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-11518 }, {   0,   0 }, {  97,-11518 }, {  98,-11518 },
- {  99,-11518 }, { 100, 258 }, { 101,-11518 }, { 102,-11518 }, { 103,-11518 },
- { 104,-11518 }, { 105,-11518 }, { 106,-11518 }, { 107,-11518 }, { 108,-11518 },
- { 109,-11518 }, { 110,-11518 }, { 111,-11518 }, { 112,-11518 }, { 113,-11518 },
- { 114,-11518 }, { 115,-11518 }, { 116,-11518 }, { 117,-11518 }, { 118,-11518 },
- { 119,-11518 }, { 120,-11518 }, { 121,-11518 }, { 122,-11518 }, {   0,   0 },
- { 124,-11543 }, { 125,-11543 }, { 126,-11543 }, { 127,-11518 }, { 128,-11518 },
- { 129,-11518 }, { 130,-11518 }, { 131,-11518 }, { 132,-11518 }, { 133,-11518 },
-
- { 134,-11518 }, { 135,-11518 }, { 136,-11518 }, { 137,-11518 }, { 138,-11518 },
- { 139,-11518 }, { 140,-11518 }, { 141,-11518 }, { 142,-11518 }, { 143,-11518 },
- { 144,-11518 }, { 145,-11518 }, { 146,-11518 }, { 147,-11518 }, { 148,-11518 },
- { 149,-11518 }, { 150,-11518 }, { 151,-11518 }, { 152,-11518 }, { 153,-11518 },
- { 154,-11518 }, { 155,-11518 }, { 156,-11518 }, { 157,-11518 }, { 158,-11518 },
- { 159,-11518 }, { 160,-11518 }, { 161,-11518 }, { 162,-11518 }, { 163,-11518 },
- { 164,-11518 }, { 165,-11518 }, { 166,-11518 }, { 167,-11518 }, { 168,-11518 },
- { 169,-11518 }, { 170,-11518 }, { 171,-11518 }, { 172,-11518 }, { 173,-11518 },
- { 174,-11518 }, { 175,-11518 }, { 176,-11518 }, { 177,-11518 }, { 178,-11518 },
- { 179,-11518 }, { 180,-11518 }, { 181,-11518 }, { 182,-11518 }, { 183,-11518 },
-
- { 184,-11518 }, { 185,-11518 }, { 186,-11518 }, { 187,-11518 }, { 188,-11518 },
- { 189,-11518 }, { 190,-11518 }, { 191,-11518 }, { 192,-11518 }, { 193,-11518 },
- { 194,-11518 }, { 195,-11518 }, { 196,-11518 }, { 197,-11518 }, { 198,-11518 },
- { 199,-11518 }, { 200,-11518 }, { 201,-11518 }, { 202,-11518 }, { 203,-11518 },
- { 204,-11518 }, { 205,-11518 }, { 206,-11518 }, { 207,-11518 }, { 208,-11518 },
- { 209,-11518 }, { 210,-11518 }, { 211,-11518 }, { 212,-11518 }, { 213,-11518 },
- { 214,-11518 }, { 215,-11518 }, { 216,-11518 }, { 217,-11518 }, { 218,-11518 },
- { 219,-11518 }, { 220,-11518 }, { 221,-11518 }, { 222,-11518 }, { 223,-11518 },
- { 224,-11518 }, { 225,-11518 }, { 226,-11518 }, { 227,-11518 }, { 228,-11518 },
- { 229,-11518 }, { 230,-11518 }, { 231,-11518 }, { 232,-11518 }, { 233,-11518 },
-
- { 234,-11518 }, { 235,-11518 }, { 236,-11518 }, { 237,-11518 }, { 238,-11518 },
- { 239,-11518 }, { 240,-11518 }, { 241,-11518 }, { 242,-11518 }, { 243,-11518 },
- { 244,-11518 }, { 245,-11518 }, { 246,-11518 }, { 247,-11518 }, { 248,-11518 },
- { 249,-11518 }, { 250,-11518 }, { 251,-11518 }, { 252,-11518 }, { 253,-11518 },
- { 254,-11518 }, { 255,-11518 }, { 256,-11518 }, {   0,   0 }, {   0, 258 },
- {   1,-11776 }, {   2,-11776 }, {   3,-11776 }, {   4,-11776 }, {   5,-11776 },
- {   6,-11776 }, {   7,-11776 }, {   8,-11776 }, {   9,-339 }, {  10,-339 },
- {  11,-11776 }, {  12,-11776 }, {  13,-339 }, {  14,-11776 }, {  15,-11776 },
- {  16,-11776 }, {  17,-11776 }, {  18,-11776 }, {  19,-11776 }, {  20,-11776 },
- {  21,-11776 }, {  22,-11776 }, {  23,-11776 }, {  24,-11776 }, {  25,-11776 },
-
- {  26,-11776 }, {  27,-11776 }, {  28,-11776 }, {  29,-11776 }, {  30,-11776 },
- {  31,-11776 }, {  32,-339 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,-11776 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,-339 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-11776 },
- {  46,-11801 }, {  47,-11801 }, {  48,-11776 }, {  49,-11776 }, {  50,-11776 },
- {  51,-11776 }, {  52,-11776 }, {  53,-11776 }, {  54,-11776 }, {  55,-11776 },
- {  56,-11776 }, {  57,-11776 }, {  58,-11776 }, {   0,   0 }, {   0,   0 },
- {  61,-11801 }, {   0,   0 }, {  63,-11776 }, {   0,   0 }, {  65,-11776 },
- {  66,-11776 }, {  67,-11776 }, {  68,-11776 }, {  69,-11776 }, {  70,-11776 },
- {  71,-11776 }, {  72,-11776 }, {  73,-11776 }, {  74,-11776 }, {  75,-11776 },
-
- {  76,-11776 }, {  77,-11776 }, {  78,-11776 }, {  79,-11776 }, {  80,-11776 },
- {  81,-11776 }, {  82,-11776 }, {  83,-11776 }, {  84,-11776 }, {  85,-11776 },
- {  86,-11776 }, {  87,-11776 }, {  88,-11776 }, {  89,-11776 }, {  90,-11776 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-11776 },
- {   0,   0 }, {  97,-11776 }, {  98,-11776 }, {  99,-11776 }, { 100,-11776 },
- { 101,-11776 }, { 102,-11776 }, { 103,-11776 }, { 104,-11776 }, { 105,-11776 },
- { 106,-11776 }, { 107,-11776 }, { 108,-11776 }, { 109,-11776 }, { 110,-11776 },
- { 111,-11776 }, { 112,-11776 }, { 113,-11776 }, { 114,-11776 }, { 115,-11776 },
- { 116,-11776 }, { 117,-11776 }, { 118,-11776 }, { 119,-11776 }, { 120,-11776 },
- { 121,-11776 }, { 122,-11776 }, {   0,   0 }, { 124,-11801 }, { 125,-339 },
-
- { 126,-339 }, { 127,-11776 }, { 128,-11776 }, { 129,-11776 }, { 130,-11776 },
- { 131,-11776 }, { 132,-11776 }, { 133,-11776 }, { 134,-11776 }, { 135,-11776 },
- { 136,-11776 }, { 137,-11776 }, { 138,-11776 }, { 139,-11776 }, { 140,-11776 },
- { 141,-11776 }, { 142,-11776 }, { 143,-11776 }, { 144,-11776 }, { 145,-11776 },
- { 146,-11776 }, { 147,-11776 }, { 148,-11776 }, { 149,-11776 }, { 150,-11776 },
- { 151,-11776 }, { 152,-11776 }, { 153,-11776 }, { 154,-11776 }, { 155,-11776 },
- { 156,-11776 }, { 157,-11776 }, { 158,-11776 }, { 159,-11776 }, { 160,-11776 },
- { 161,-11776 }, { 162,-11776 }, { 163,-11776 }, { 164,-11776 }, { 165,-11776 },
- { 166,-11776 }, { 167,-11776 }, { 168,-11776 }, { 169,-11776 }, { 170,-11776 },
- { 171,-11776 }, { 172,-11776 }, { 173,-11776 }, { 174,-11776 }, { 175,-11776 },
-
- { 176,-11776 }, { 177,-11776 }, { 178,-11776 }, { 179,-11776 }, { 180,-11776 },
- { 181,-11776 }, { 182,-11776 }, { 183,-11776 }, { 184,-11776 }, { 185,-11776 },
- { 186,-11776 }, { 187,-11776 }, { 188,-11776 }, { 189,-11776 }, { 190,-11776 },
- { 191,-11776 }, { 192,-11776 }, { 193,-11776 }, { 194,-11776 }, { 195,-11776 },
- { 196,-11776 }, { 197,-11776 }, { 198,-11776 }, { 199,-11776 }, { 200,-11776 },
- { 201,-11776 }, { 202,-11776 }, { 203,-11776 }, { 204,-11776 }, { 205,-11776 },
- { 206,-11776 }, { 207,-11776 }, { 208,-11776 }, { 209,-11776 }, { 210,-11776 },
- { 211,-11776 }, { 212,-11776 }, { 213,-11776 }, { 214,-11776 }, { 215,-11776 },
- { 216,-11776 }, { 217,-11776 }, { 218,-11776 }, { 219,-11776 }, { 220,-11776 },
- { 221,-11776 }, { 222,-11776 }, { 223,-11776 }, { 224,-11776 }, { 225,-11776 },
-
- { 226,-11776 }, { 227,-11776 }, { 228,-11776 }, { 229,-11776 }, { 230,-11776 },
- { 231,-11776 }, { 232,-11776 }, { 233,-11776 }, { 234,-11776 }, { 235,-11776 },
- { 236,-11776 }, { 237,-11776 }, { 238,-11776 }, { 239,-11776 }, { 240,-11776 },
- { 241,-11776 }, { 242,-11776 }, { 243,-11776 }, { 244,-11776 }, { 245,-11776 },
- { 246,-11776 }, { 247,-11776 }, { 248,-11776 }, { 249,-11776 }, { 250,-11776 },
- { 251,-11776 }, { 252,-11776 }, { 253,-11776 }, { 254,-11776 }, { 255,-11776 },
- { 256,-11776 }, { 257,  52 }, {   1,   0 },    };
+ { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 },
+ { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 },
+ { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 },
+ { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 },
+ { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 },
+ { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 },
+ { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 },
+ { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 },
+ { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 },
+ { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 },
+
+ { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 },
+ { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 },
+ { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 },
+ { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
+ { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
+ { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
+ { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0, 920 }, {   1,-12260 },
+ {   2,-12260 }, {   3,-12260 }, {   4,-12260 }, {   5,-12260 }, {   6,-12260 },
+ {   7,-12260 }, {   8,-12260 }, {   9,-12285 }, {  10,-12285 }, {  11,-12260 },
+ {  12,-12260 }, {  13,-12285 }, {  14,-12260 }, {  15,-12260 }, {  16,-12260 },
+
+ {  17,-12260 }, {  18,-12260 }, {  19,-12260 }, {  20,-12260 }, {  21,-12260 },
+ {  22,-12260 }, {  23,-12260 }, {  24,-12260 }, {  25,-12260 }, {  26,-12260 },
+ {  27,-12260 }, {  28,-12260 }, {  29,-12260 }, {  30,-12260 }, {  31,-12260 },
+ {  32,-12285 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-12260 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-12285 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-12260 }, {  46,-12285 },
+ {  47,-12285 }, {  48,-12260 }, {  49,-12260 }, {  50,-12260 }, {  51,-12260 },
+ {  52,-12260 }, {  53,-12260 }, {  54,-12260 }, {  55,-12260 }, {  56,-12260 },
+ {  57,-12260 }, {  58,-12260 }, {   0,   0 }, {   0,   0 }, {  61,-12285 },
+ {   0,   0 }, {  63,-12260 }, {   0,   0 }, {  65,-12260 }, {  66,-12260 },
+
+ {  67,-12260 }, {  68,-12260 }, {  69,-12260 }, {  70,-12260 }, {  71,-12260 },
+ {  72,-12260 }, {  73,-12260 }, {  74,-12260 }, {  75,-12260 }, {  76,-12260 },
+ {  77,-12260 }, {  78,-12260 }, {  79,-12260 }, {  80,-12260 }, {  81,-12260 },
+ {  82,-12260 }, {  83,-12260 }, {  84,-12260 }, {  85,-12260 }, {  86,-12260 },
+ {  87,-12260 }, {  88,-12260 }, {  89,-12260 }, {  90,-12260 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-12260 }, {   0,   0 },
+ {  97,-12260 }, {  98,-12260 }, {  99,-12260 }, { 100,-12260 }, { 101, 404 },
+ { 102,-12260 }, { 103,-12260 }, { 104,-12260 }, { 105,-12260 }, { 106,-12260 },
+ { 107,-12260 }, { 108,-12260 }, { 109,-12260 }, { 110,-12260 }, { 111,-12260 },
+ { 112,-12260 }, { 113,-12260 }, { 114,-12260 }, { 115,-12260 }, { 116,-12260 },
+
+ { 117,-12260 }, { 118,-12260 }, { 119,-12260 }, { 120,-12260 }, { 121,-12260 },
+ { 122,-12260 }, {   0,   0 }, { 124,-12285 }, { 125,-12285 }, { 126,-12285 },
+ { 127,-12260 }, { 128,-12260 }, { 129,-12260 }, { 130,-12260 }, { 131,-12260 },
+ { 132,-12260 }, { 133,-12260 }, { 134,-12260 }, { 135,-12260 }, { 136,-12260 },
+ { 137,-12260 }, { 138,-12260 }, { 139,-12260 }, { 140,-12260 }, { 141,-12260 },
+ { 142,-12260 }, { 143,-12260 }, { 144,-12260 }, { 145,-12260 }, { 146,-12260 },
+ { 147,-12260 }, { 148,-12260 }, { 149,-12260 }, { 150,-12260 }, { 151,-12260 },
+ { 152,-12260 }, { 153,-12260 }, { 154,-12260 }, { 155,-12260 }, { 156,-12260 },
+ { 157,-12260 }, { 158,-12260 }, { 159,-12260 }, { 160,-12260 }, { 161,-12260 },
+ { 162,-12260 }, { 163,-12260 }, { 164,-12260 }, { 165,-12260 }, { 166,-12260 },
+
+ { 167,-12260 }, { 168,-12260 }, { 169,-12260 }, { 170,-12260 }, { 171,-12260 },
+ { 172,-12260 }, { 173,-12260 }, { 174,-12260 }, { 175,-12260 }, { 176,-12260 },
+ { 177,-12260 }, { 178,-12260 }, { 179,-12260 }, { 180,-12260 }, { 181,-12260 },
+ { 182,-12260 }, { 183,-12260 }, { 184,-12260 }, { 185,-12260 }, { 186,-12260 },
+ { 187,-12260 }, { 188,-12260 }, { 189,-12260 }, { 190,-12260 }, { 191,-12260 },
+ { 192,-12260 }, { 193,-12260 }, { 194,-12260 }, { 195,-12260 }, { 196,-12260 },
+ { 197,-12260 }, { 198,-12260 }, { 199,-12260 }, { 200,-12260 }, { 201,-12260 },
+ { 202,-12260 }, { 203,-12260 }, { 204,-12260 }, { 205,-12260 }, { 206,-12260 },
+ { 207,-12260 }, { 208,-12260 }, { 209,-12260 }, { 210,-12260 }, { 211,-12260 },
+ { 212,-12260 }, { 213,-12260 }, { 214,-12260 }, { 215,-12260 }, { 216,-12260 },
+
+ { 217,-12260 }, { 218,-12260 }, { 219,-12260 }, { 220,-12260 }, { 221,-12260 },
+ { 222,-12260 }, { 223,-12260 }, { 224,-12260 }, { 225,-12260 }, { 226,-12260 },
+ { 227,-12260 }, { 228,-12260 }, { 229,-12260 }, { 230,-12260 }, { 231,-12260 },
+ { 232,-12260 }, { 233,-12260 }, { 234,-12260 }, { 235,-12260 }, { 236,-12260 },
+ { 237,-12260 }, { 238,-12260 }, { 239,-12260 }, { 240,-12260 }, { 241,-12260 },
+ { 242,-12260 }, { 243,-12260 }, { 244,-12260 }, { 245,-12260 }, { 246,-12260 },
+ { 247,-12260 }, { 248,-12260 }, { 249,-12260 }, { 250,-12260 }, { 251,-12260 },
+ { 252,-12260 }, { 253,-12260 }, { 254,-12260 }, { 255,-12260 }, { 256,-12260 },
+ {   0,   0 }, {   0, 662 }, {   0,   0 }, {   0, 660 }, {   0,   0 },
+ {   0, 658 }, {   0,   0 }, {   0, 656 }, {   0,  26 }, {   0, 654 },
+
+ {   9,   2 }, {  10,   2 }, {   9,   0 }, {  10,   0 }, {  13,   2 },
+ {   0,   0 }, {  13,   0 }, {   0,  12 }, {   0, 645 }, {   0,   0 },
+ {   0, 643 }, {   0,  24 }, {   0, 641 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   2 }, {   0,   0 },
+ {  32,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0, 608 }, {   0,   0 }, {   0, 606 }, {   0,  46 }, {   0, 604 },
+
+ {   0,   9 }, {   0, 602 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 125,   4 }, { 126,   6 }, { 125,   2 }, { 126,   4 },
+ { 125,  17 }, {   0,   0 }, { 125,  -2 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 125,  35 }, {   0,   0 }, {   0, 516 }, {   1,-12664 }, {   2,-12664 },
+ {   3,-12664 }, {   4,-12664 }, {   5,-12664 }, {   6,-12664 }, {   7,-12664 },
+ {   8,-12664 }, {   9,-12689 }, {  10,-12689 }, {  11,-12664 }, {  12,-12664 },
+
+ {  13,-12689 }, {  14,-12664 }, {  15,-12664 }, {  16,-12664 }, {  17,-12664 },
+ {  18,-12664 }, {  19,-12664 }, {  20,-12664 }, {  21,-12664 }, {  22,-12664 },
+ {  23,-12664 }, {  24,-12664 }, {  25,-12664 }, {  26,-12664 }, {  27,-12664 },
+ {  28,-12664 }, {  29,-12664 }, {  30,-12664 }, {  31,-12664 }, {  32,-12689 },
+ { 125,   2 }, {   0,   0 }, { 125,   4 }, {  36,-12664 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-12689 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,-12664 }, {  46,-12689 }, {  47,-12689 },
+ {  48,-12664 }, {  49,-12664 }, {  50,-12664 }, {  51,-12664 }, {  52,-12664 },
+ {  53,-12664 }, {  54,-12664 }, {  55,-12664 }, {  56,-12664 }, {  57,-12664 },
+ {  58,-12664 }, {   0,   0 }, {   0,   0 }, {  61,-12689 }, {   0,   0 },
+
+ {  63,-12664 }, {   0,   0 }, {  65,-12664 }, {  66,-12664 }, {  67,-12664 },
+ {  68,-12664 }, {  69,-12664 }, {  70,-12664 }, {  71,-12664 }, {  72,-12664 },
+ {  73,-12664 }, {  74,-12664 }, {  75,-12664 }, {  76,-12664 }, {  77,-12664 },
+ {  78,-12664 }, {  79,-12664 }, {  80,-12664 }, {  81,-12664 }, {  82,-12664 },
+ {  83,-12664 }, {  84,-12664 }, {  85,-12664 }, {  86,-12664 }, {  87,-12664 },
+ {  88,-12664 }, {  89,-12664 }, {  90,-12664 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,-12664 }, {   0,   0 }, {  97,-12664 },
+ {  98,-12664 }, {  99,-12664 }, { 100, 258 }, { 101,-12664 }, { 102,-12664 },
+ { 103,-12664 }, { 104,-12664 }, { 105,-12664 }, { 106,-12664 }, { 107,-12664 },
+ { 108,-12664 }, { 109,-12664 }, { 110,-12664 }, { 111,-12664 }, { 112,-12664 },
+
+ { 113,-12664 }, { 114,-12664 }, { 115,-12664 }, { 116,-12664 }, { 117,-12664 },
+ { 118,-12664 }, { 119,-12664 }, { 120,-12664 }, { 121,-12664 }, { 122,-12664 },
+ {   0,   0 }, { 124,-12689 }, { 125,-12689 }, { 126,-12689 }, { 127,-12664 },
+ { 128,-12664 }, { 129,-12664 }, { 130,-12664 }, { 131,-12664 }, { 132,-12664 },
+ { 133,-12664 }, { 134,-12664 }, { 135,-12664 }, { 136,-12664 }, { 137,-12664 },
+ { 138,-12664 }, { 139,-12664 }, { 140,-12664 }, { 141,-12664 }, { 142,-12664 },
+ { 143,-12664 }, { 144,-12664 }, { 145,-12664 }, { 146,-12664 }, { 147,-12664 },
+ { 148,-12664 }, { 149,-12664 }, { 150,-12664 }, { 151,-12664 }, { 152,-12664 },
+ { 153,-12664 }, { 154,-12664 }, { 155,-12664 }, { 156,-12664 }, { 157,-12664 },
+ { 158,-12664 }, { 159,-12664 }, { 160,-12664 }, { 161,-12664 }, { 162,-12664 },
+
+ { 163,-12664 }, { 164,-12664 }, { 165,-12664 }, { 166,-12664 }, { 167,-12664 },
+ { 168,-12664 }, { 169,-12664 }, { 170,-12664 }, { 171,-12664 }, { 172,-12664 },
+ { 173,-12664 }, { 174,-12664 }, { 175,-12664 }, { 176,-12664 }, { 177,-12664 },
+ { 178,-12664 }, { 179,-12664 }, { 180,-12664 }, { 181,-12664 }, { 182,-12664 },
+ { 183,-12664 }, { 184,-12664 }, { 185,-12664 }, { 186,-12664 }, { 187,-12664 },
+ { 188,-12664 }, { 189,-12664 }, { 190,-12664 }, { 191,-12664 }, { 192,-12664 },
+ { 193,-12664 }, { 194,-12664 }, { 195,-12664 }, { 196,-12664 }, { 197,-12664 },
+ { 198,-12664 }, { 199,-12664 }, { 200,-12664 }, { 201,-12664 }, { 202,-12664 },
+ { 203,-12664 }, { 204,-12664 }, { 205,-12664 }, { 206,-12664 }, { 207,-12664 },
+ { 208,-12664 }, { 209,-12664 }, { 210,-12664 }, { 211,-12664 }, { 212,-12664 },
+
+ { 213,-12664 }, { 214,-12664 }, { 215,-12664 }, { 216,-12664 }, { 217,-12664 },
+ { 218,-12664 }, { 219,-12664 }, { 220,-12664 }, { 221,-12664 }, { 222,-12664 },
+ { 223,-12664 }, { 224,-12664 }, { 225,-12664 }, { 226,-12664 }, { 227,-12664 },
+ { 228,-12664 }, { 229,-12664 }, { 230,-12664 }, { 231,-12664 }, { 232,-12664 },
+ { 233,-12664 }, { 234,-12664 }, { 235,-12664 }, { 236,-12664 }, { 237,-12664 },
+ { 238,-12664 }, { 239,-12664 }, { 240,-12664 }, { 241,-12664 }, { 242,-12664 },
+ { 243,-12664 }, { 244,-12664 }, { 245,-12664 }, { 246,-12664 }, { 247,-12664 },
+ { 248,-12664 }, { 249,-12664 }, { 250,-12664 }, { 251,-12664 }, { 252,-12664 },
+ { 253,-12664 }, { 254,-12664 }, { 255,-12664 }, { 256,-12664 }, {   0,   0 },
+ {   0, 258 }, {   1,-12922 }, {   2,-12922 }, {   3,-12922 }, {   4,-12922 },
+
+ {   5,-12922 }, {   6,-12922 }, {   7,-12922 }, {   8,-12922 }, {   9,-346 },
+ {  10,-346 }, {  11,-12922 }, {  12,-12922 }, {  13,-346 }, {  14,-12922 },
+ {  15,-12922 }, {  16,-12922 }, {  17,-12922 }, {  18,-12922 }, {  19,-12922 },
+ {  20,-12922 }, {  21,-12922 }, {  22,-12922 }, {  23,-12922 }, {  24,-12922 },
+ {  25,-12922 }, {  26,-12922 }, {  27,-12922 }, {  28,-12922 }, {  29,-12922 },
+ {  30,-12922 }, {  31,-12922 }, {  32,-346 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,-12922 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  41,-346 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,-12922 }, {  46,-12947 }, {  47,-12947 }, {  48,-12922 }, {  49,-12922 },
+ {  50,-12922 }, {  51,-12922 }, {  52,-12922 }, {  53,-12922 }, {  54,-12922 },
+
+ {  55,-12922 }, {  56,-12922 }, {  57,-12922 }, {  58,-12922 }, {   0,   0 },
+ {   0,   0 }, {  61,-12947 }, {   0,   0 }, {  63,-12922 }, {   0,   0 },
+ {  65,-12922 }, {  66,-12922 }, {  67,-12922 }, {  68,-12922 }, {  69,-12922 },
+ {  70,-12922 }, {  71,-12922 }, {  72,-12922 }, {  73,-12922 }, {  74,-12922 },
+ {  75,-12922 }, {  76,-12922 }, {  77,-12922 }, {  78,-12922 }, {  79,-12922 },
+ {  80,-12922 }, {  81,-12922 }, {  82,-12922 }, {  83,-12922 }, {  84,-12922 },
+ {  85,-12922 }, {  86,-12922 }, {  87,-12922 }, {  88,-12922 }, {  89,-12922 },
+ {  90,-12922 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,-12922 }, {   0,   0 }, {  97,-12922 }, {  98,-12922 }, {  99,-12922 },
+ { 100,-12922 }, { 101,-12922 }, { 102,-12922 }, { 103,-12922 }, { 104,-12922 },
+
+ { 105,-12922 }, { 106,-12922 }, { 107,-12922 }, { 108,-12922 }, { 109,-12922 },
+ { 110,-12922 }, { 111,-12922 }, { 112,-12922 }, { 113,-12922 }, { 114,-12922 },
+ { 115,-12922 }, { 116,-12922 }, { 117,-12922 }, { 118,-12922 }, { 119,-12922 },
+ { 120,-12922 }, { 121,-12922 }, { 122,-12922 }, {   0,   0 }, { 124,-12947 },
+ { 125,-346 }, { 126,-346 }, { 127,-12922 }, { 128,-12922 }, { 129,-12922 },
+ { 130,-12922 }, { 131,-12922 }, { 132,-12922 }, { 133,-12922 }, { 134,-12922 },
+ { 135,-12922 }, { 136,-12922 }, { 137,-12922 }, { 138,-12922 }, { 139,-12922 },
+ { 140,-12922 }, { 141,-12922 }, { 142,-12922 }, { 143,-12922 }, { 144,-12922 },
+ { 145,-12922 }, { 146,-12922 }, { 147,-12922 }, { 148,-12922 }, { 149,-12922 },
+ { 150,-12922 }, { 151,-12922 }, { 152,-12922 }, { 153,-12922 }, { 154,-12922 },
+
+ { 155,-12922 }, { 156,-12922 }, { 157,-12922 }, { 158,-12922 }, { 159,-12922 },
+ { 160,-12922 }, { 161,-12922 }, { 162,-12922 }, { 163,-12922 }, { 164,-12922 },
+ { 165,-12922 }, { 166,-12922 }, { 167,-12922 }, { 168,-12922 }, { 169,-12922 },
+ { 170,-12922 }, { 171,-12922 }, { 172,-12922 }, { 173,-12922 }, { 174,-12922 },
+ { 175,-12922 }, { 176,-12922 }, { 177,-12922 }, { 178,-12922 }, { 179,-12922 },
+ { 180,-12922 }, { 181,-12922 }, { 182,-12922 }, { 183,-12922 }, { 184,-12922 },
+ { 185,-12922 }, { 186,-12922 }, { 187,-12922 }, { 188,-12922 }, { 189,-12922 },
+ { 190,-12922 }, { 191,-12922 }, { 192,-12922 }, { 193,-12922 }, { 194,-12922 },
+ { 195,-12922 }, { 196,-12922 }, { 197,-12922 }, { 198,-12922 }, { 199,-12922 },
+ { 200,-12922 }, { 201,-12922 }, { 202,-12922 }, { 203,-12922 }, { 204,-12922 },
+
+ { 205,-12922 }, { 206,-12922 }, { 207,-12922 }, { 208,-12922 }, { 209,-12922 },
+ { 210,-12922 }, { 211,-12922 }, { 212,-12922 }, { 213,-12922 }, { 214,-12922 },
+ { 215,-12922 }, { 216,-12922 }, { 217,-12922 }, { 218,-12922 }, { 219,-12922 },
+ { 220,-12922 }, { 221,-12922 }, { 222,-12922 }, { 223,-12922 }, { 224,-12922 },
+ { 225,-12922 }, { 226,-12922 }, { 227,-12922 }, { 228,-12922 }, { 229,-12922 },
+ { 230,-12922 }, { 231,-12922 }, { 232,-12922 }, { 233,-12922 }, { 234,-12922 },
+ { 235,-12922 }, { 236,-12922 }, { 237,-12922 }, { 238,-12922 }, { 239,-12922 },
+ { 240,-12922 }, { 241,-12922 }, { 242,-12922 }, { 243,-12922 }, { 244,-12922 },
+ { 245,-12922 }, { 246,-12922 }, { 247,-12922 }, { 248,-12922 }, { 249,-12922 },
+ { 250,-12922 }, { 251,-12922 }, { 252,-12922 }, { 253,-12922 }, { 254,-12922 },
+
+ { 255,-12922 }, { 256,-12922 }, { 257,  53 }, {   1,   0 },    };
 
 static const struct yy_trans_info *yy_start_state_list[13] =
     {
@@ -4995,11 +5275,11 @@ static const struct yy_trans_info *yy_start_state_list[13] =
     } ;
 
 /* Table of booleans, true if rule could match eol. */
-static const flex_int32_t yy_rule_can_match_eol[52] =
+static const flex_int32_t yy_rule_can_match_eol[53] =
     {   0,
-1, 1, 0, 1, 0, 0, 0, 1, 0, 1, 0, 1, 1, 0, 0, 0, 0, 0, 0, 
-    0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 1, 1, 
-    0, 1, 0, 1, 1, 1, 1, 1, 1, 1, 0, 0,     };
+1, 1, 0, 1, 0, 0, 0, 1, 0, 1, 0, 1, 1, 1, 0, 0, 0, 0, 0, 
+    0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 1, 
+    1, 0, 1, 0, 1, 1, 1, 1, 1, 1, 1, 0, 0,     };
 
 /* The intent behind this definition is that it'll catch
  * any uses of REJECT which flex missed.
@@ -5119,9 +5399,9 @@ static void handlebars_yy_locate(struct handlebars_parser * parser, struct handl
         }
     }
 }
-#line 5123 "handlebars.lex.c"
+#line 5403 "handlebars.lex.c"
 
-#line 5125 "handlebars.lex.c"
+#line 5405 "handlebars.lex.c"
 
 #define INITIAL 0
 #define mu 1
@@ -5400,11 +5680,11 @@ YY_DECL
 		}
 
 	{
-#line 155 "handlebars.l"
+#line 159 "handlebars.l"
 
 
 
-#line 5408 "handlebars.lex.c"
+#line 5688 "handlebars.lex.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -5471,7 +5751,7 @@ do_action:	/* This label is used only to access EOF actions. */
 case 1:
 /* rule 1 can match eol */
 YY_RULE_SETUP
-#line 158 "handlebars.l"
+#line 162 "handlebars.l"
 {
 										int n = yytext[yyleng - 3] == '{' ? 3 : 2;
 										handlebars_yy_unput_n(n);
@@ -5484,7 +5764,7 @@ YY_RULE_SETUP
 case 2:
 /* rule 2 can match eol */
 YY_RULE_SETUP
-#line 167 "handlebars.l"
+#line 171 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 31
 										handlebars_yy_copy_lval();
@@ -5493,7 +5773,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 173 "handlebars.l"
+#line 177 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 32
 										handlebars_yy_unput_n(2);
@@ -5508,7 +5788,7 @@ YY_RULE_SETUP
 case 4:
 /* rule 4 can match eol */
 YY_RULE_SETUP
-#line 184 "handlebars.l"
+#line 188 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 35
 										yy_push_state(emu, yyscanner);
@@ -5519,7 +5799,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 192 "handlebars.l"
+#line 196 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 38
 										handlebars_yy_unput_all;
@@ -5528,7 +5808,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 198 "handlebars.l"
+#line 202 "handlebars.l"
 {
 										handlebars_yy_copy_lval();
 										return CONTENT;
@@ -5536,7 +5816,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 203 "handlebars.l"
+#line 207 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 47
 										handlebars_yy_unput_all;
@@ -5550,7 +5830,7 @@ YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 209 "handlebars.l"
+#line 213 "handlebars.l"
 {
                                   		yy_push_state(raw, yyscanner);
 										handlebars_yy_copy_lval();
@@ -5559,7 +5839,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 215 "handlebars.l"
+#line 219 "handlebars.l"
 {
 										// v4.0.2 handlebars.l line 54
 
@@ -5577,7 +5857,7 @@ YY_RULE_SETUP
 case 10:
 /* rule 10 can match eol */
 YY_RULE_SETUP
-#line 229 "handlebars.l"
+#line 233 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 57
 										handlebars_yy_copy_lval();
@@ -5586,7 +5866,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 235 "handlebars.l"
+#line 239 "handlebars.l"
 {
 										handlebars_yy_copy_lval();
 										return CONTENT;
@@ -5595,7 +5875,7 @@ YY_RULE_SETUP
 case 12:
 /* rule 12 can match eol */
 YY_RULE_SETUP
-#line 240 "handlebars.l"
+#line 244 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 59
   										yy_pop_state(yyg);
@@ -5608,7 +5888,7 @@ YY_RULE_SETUP
 case 13:
 /* rule 13 can match eol */
 YY_RULE_SETUP
-#line 249 "handlebars.l"
+#line 253 "handlebars.l"
 {
   										//yytext[yyleng -= 2] = 0;
   										yy_pop_state(yyg);
@@ -5617,35 +5897,44 @@ YY_RULE_SETUP
 									}
 	YY_BREAK
 case 14:
+/* rule 14 can match eol */
+YY_RULE_SETUP
+#line 260 "handlebars.l"
+{
+										handlebars_yy_copy_lval();
+										return INVALID;
+									}
+	YY_BREAK
+case 15:
 YY_RULE_SETUP
-#line 256 "handlebars.l"
+#line 265 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 61
 										handlebars_yy_copy_lval();
 										return OPEN_SEXPR;
 									}
 	YY_BREAK
-case 15:
+case 16:
 YY_RULE_SETUP
-#line 262 "handlebars.l"
+#line 271 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 62
 										handlebars_yy_copy_lval();
 										return CLOSE_SEXPR;
 									}
 	YY_BREAK
-case 16:
+case 17:
 YY_RULE_SETUP
-#line 268 "handlebars.l"
+#line 277 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 64
 										handlebars_yy_copy_lval();
 										return OPEN_RAW_BLOCK;
 									}
 	YY_BREAK
-case 17:
+case 18:
 YY_RULE_SETUP
-#line 274 "handlebars.l"
+#line 283 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 65
 										yy_pop_state(yyg);
@@ -5654,45 +5943,45 @@ YY_RULE_SETUP
                                   		return CLOSE_RAW_BLOCK;
                              		}
 	YY_BREAK
-case 18:
+case 19:
 YY_RULE_SETUP
-#line 282 "handlebars.l"
+#line 291 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 70
 										handlebars_yy_copy_lval();
 										return OPEN_PARTIAL;
                              		}
 	YY_BREAK
-case 19:
+case 20:
 YY_RULE_SETUP
-#line 288 "handlebars.l"
+#line 297 "handlebars.l"
 {
 										// v4.0.2 handlebars.l line 83
 										handlebars_yy_copy_lval();
 										return OPEN_PARTIAL_BLOCK;
                              		}
 	YY_BREAK
-case 20:
+case 21:
 YY_RULE_SETUP
-#line 294 "handlebars.l"
+#line 303 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 71
 										handlebars_yy_copy_lval();
 										return OPEN_BLOCK;
                              		}
 	YY_BREAK
-case 21:
+case 22:
 YY_RULE_SETUP
-#line 300 "handlebars.l"
+#line 309 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 72
 										handlebars_yy_copy_lval();
 										return OPEN_ENDBLOCK;
                              		}
 	YY_BREAK
-case 22:
+case 23:
 YY_RULE_SETUP
-#line 306 "handlebars.l"
+#line 315 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 73
 										yy_pop_state(yyg);
@@ -5700,10 +5989,10 @@ YY_RULE_SETUP
 										return INVERSE;
                              		}
 	YY_BREAK
-case 23:
-/* rule 23 can match eol */
+case 24:
+/* rule 24 can match eol */
 YY_RULE_SETUP
-#line 313 "handlebars.l"
+#line 322 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 74
 										yy_pop_state(yyg);
@@ -5711,45 +6000,45 @@ YY_RULE_SETUP
 										return INVERSE;
                              		}
 	YY_BREAK
-case 24:
+case 25:
 YY_RULE_SETUP
-#line 320 "handlebars.l"
+#line 329 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 75
 										handlebars_yy_copy_lval();
 										return OPEN_INVERSE;
                              		}
 	YY_BREAK
-case 25:
+case 26:
 YY_RULE_SETUP
-#line 326 "handlebars.l"
+#line 335 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 76
 										handlebars_yy_copy_lval();
 										return OPEN_INVERSE_CHAIN;
                              		}
 	YY_BREAK
-case 26:
+case 27:
 YY_RULE_SETUP
-#line 332 "handlebars.l"
+#line 341 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 77
 										handlebars_yy_copy_lval();
 										return OPEN_UNESCAPED;
                              		}
 	YY_BREAK
-case 27:
+case 28:
 YY_RULE_SETUP
-#line 338 "handlebars.l"
+#line 347 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 78
 										handlebars_yy_copy_lval();
 										return OPEN;
                              		}
 	YY_BREAK
-case 28:
+case 29:
 YY_RULE_SETUP
-#line 344 "handlebars.l"
+#line 353 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 79
 										handlebars_yy_unput_all;
@@ -5757,9 +6046,9 @@ YY_RULE_SETUP
   										yy_push_state(com, yyscanner);
 									}
 	YY_BREAK
-case 29:
+case 30:
 YY_RULE_SETUP
-#line 351 "handlebars.l"
+#line 360 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 80
 										handlebars_yy_unput_all;
@@ -5767,68 +6056,68 @@ YY_RULE_SETUP
   										yy_push_state(com1, yyscanner);
 									}
 	YY_BREAK
-case 30:
+case 31:
 YY_RULE_SETUP
-#line 358 "handlebars.l"
+#line 367 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 81
 										handlebars_yy_copy_lval();
 										return OPEN;
 									}
 	YY_BREAK
-case 31:
+case 32:
 YY_RULE_SETUP
-#line 364 "handlebars.l"
+#line 373 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 83
 										handlebars_yy_copy_lval();
 										return EQUALS;
 									}
 	YY_BREAK
-case 32:
+case 33:
 YY_RULE_SETUP
-#line 370 "handlebars.l"
+#line 379 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 84
 										handlebars_yy_copy_lval();
 										return ID;
 									}
 	YY_BREAK
-case 33:
-/* rule 33 can match eol */
+case 34:
+/* rule 34 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 1);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 376 "handlebars.l"
+#line 385 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 85
 										handlebars_yy_copy_lval();
 										return ID;
 									}
 	YY_BREAK
-case 34:
+case 35:
 YY_RULE_SETUP
-#line 382 "handlebars.l"
+#line 391 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 86
 										handlebars_yy_copy_lval();
 										return SEP;
 									}
 	YY_BREAK
-case 35:
-/* rule 35 can match eol */
+case 36:
+/* rule 36 can match eol */
 YY_RULE_SETUP
-#line 388 "handlebars.l"
+#line 397 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 87
 										// ignore whitespace
                                  	}
 	YY_BREAK
-case 36:
+case 37:
 YY_RULE_SETUP
-#line 393 "handlebars.l"
+#line 402 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 88
 										yy_pop_state(yyg);
@@ -5836,9 +6125,9 @@ YY_RULE_SETUP
 										return CLOSE_UNESCAPED;
 									}
 	YY_BREAK
-case 37:
+case 38:
 YY_RULE_SETUP
-#line 400 "handlebars.l"
+#line 409 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 89
 										yy_pop_state(yyg);
@@ -5846,10 +6135,10 @@ YY_RULE_SETUP
 										return CLOSE;
 									}
 	YY_BREAK
-case 38:
-/* rule 38 can match eol */
+case 39:
+/* rule 39 can match eol */
 YY_RULE_SETUP
-#line 407 "handlebars.l"
+#line 416 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 90
 										yytext[--yyleng] = 0;
@@ -5859,10 +6148,10 @@ YY_RULE_SETUP
                                    		return STRING;
                                  	}
 	YY_BREAK
-case 39:
-/* rule 39 can match eol */
+case 40:
+/* rule 40 can match eol */
 YY_RULE_SETUP
-#line 416 "handlebars.l"
+#line 425 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 91
 										yytext[--yyleng] = 0;
@@ -5872,122 +6161,122 @@ YY_RULE_SETUP
 										return SINGLE_STRING;
                                 	}
 	YY_BREAK
-case 40:
+case 41:
 YY_RULE_SETUP
-#line 425 "handlebars.l"
+#line 434 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 92
 										handlebars_yy_copy_lval();
 										return DATA;
 									}
 	YY_BREAK
-case 41:
-/* rule 41 can match eol */
+case 42:
+/* rule 42 can match eol */
 YY_RULE_SETUP
-#line 431 "handlebars.l"
+#line 440 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 108
 										handlebars_yy_copy_lval();
 										return OPEN_BLOCK_PARAMS;
 									}
 	YY_BREAK
-case 42:
+case 43:
 YY_RULE_SETUP
-#line 437 "handlebars.l"
+#line 446 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 109
 										handlebars_yy_copy_lval();
 										return CLOSE_BLOCK_PARAMS;
 									}
 	YY_BREAK
-case 43:
-/* rule 43 can match eol */
+case 44:
+/* rule 44 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 443 "handlebars.l"
+#line 452 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 93
 										handlebars_yy_copy_lval();
 										return BOOLEAN;
 									}
 	YY_BREAK
-case 44:
-/* rule 44 can match eol */
+case 45:
+/* rule 45 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 5);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 5;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 449 "handlebars.l"
+#line 458 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 94
 										handlebars_yy_copy_lval();
 										return BOOLEAN;
 									}
 	YY_BREAK
-case 45:
-/* rule 45 can match eol */
+case 46:
+/* rule 46 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 9);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 9;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 455 "handlebars.l"
+#line 464 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 105
 										handlebars_yy_copy_lval();
 										return UNDEFINED;
 									}
 	YY_BREAK
-case 46:
-/* rule 46 can match eol */
+case 47:
+/* rule 47 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 461 "handlebars.l"
+#line 470 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 106
 										handlebars_yy_copy_lval();
 										return NUL;
 									}
 	YY_BREAK
-case 47:
-/* rule 47 can match eol */
+case 48:
+/* rule 48 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 467 "handlebars.l"
+#line 476 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 95
 										handlebars_yy_copy_lval();
 										return NUMBER;
 									}
 	YY_BREAK
-case 48:
-/* rule 48 can match eol */
+case 49:
+/* rule 49 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 474 "handlebars.l"
+#line 483 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 97
 										handlebars_yy_copy_lval();
 										return ID;
 									}
 	YY_BREAK
-case 49:
-/* rule 49 can match eol */
+case 50:
+/* rule 50 can match eol */
 YY_RULE_SETUP
-#line 480 "handlebars.l"
+#line 489 "handlebars.l"
 {
 										// v4.0.3 handlebars.l line 123
 										// yytext = strip(1,2);
@@ -5998,9 +6287,9 @@ YY_RULE_SETUP
 										return ID;
 									}
 	YY_BREAK
-case 50:
+case 51:
 YY_RULE_SETUP
-#line 490 "handlebars.l"
+#line 499 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 100
 										handlebars_yy_copy_lval();
@@ -6013,18 +6302,18 @@ case YY_STATE_EOF(emu):
 case YY_STATE_EOF(com):
 case YY_STATE_EOF(com1):
 case YY_STATE_EOF(raw):
-#line 496 "handlebars.l"
+#line 505 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 102
 										return END;
 									}
 	YY_BREAK
-case 51:
+case 52:
 YY_RULE_SETUP
-#line 501 "handlebars.l"
+#line 510 "handlebars.l"
 ECHO;
 	YY_BREAK
-#line 6028 "handlebars.lex.c"
+#line 6317 "handlebars.lex.c"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -7232,6 +7521,6 @@ static int yy_flex_strlen (const char * s , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 501 "handlebars.l"
+#line 510 "handlebars.l"
 
 
diff --git a/src/handlebars.lex.h b/src/handlebars.lex.h
index 5f49ef8..036f263 100644
--- a/src/handlebars.lex.h
+++ b/src/handlebars.lex.h
@@ -733,7 +733,7 @@ extern int yylex \
 #undef yyTABLES_NAME
 #endif
 
-#line 501 "handlebars.l"
+#line 510 "handlebars.l"
 
 
 #line 740 "handlebars.lex.h"
-- 
2.43.0


From 01dcb4ba7c1f155b5b22f27b43a70abd528cfcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:00 +0000
Subject: [PATCH 097/102] fix: a NUL in the text of a template was dropped
 silently

---
 src/handlebars.l     |   5 +
 src/handlebars.lex.c | 552 ++++++++++++++++++++++---------------------
 src/handlebars.lex.h |   2 +-
 3 files changed, 286 insertions(+), 273 deletions(-)

diff --git a/src/handlebars.l b/src/handlebars.l
index 6d533e9..84368a7 100644
--- a/src/handlebars.l
+++ b/src/handlebars.l
@@ -257,6 +257,11 @@ CTEXT     [^-]|{CEND}*("-"[^-]|{DASHES}[^-~}]|{CEND}[^-}])
   										return COMMENT;
 									}
 
+<INITIAL,raw>\x00					{
+										handlebars_yy_copy_lval();
+										return INVALID;
+									}
+
 <com,com1>.|\n						{
 										handlebars_yy_copy_lval();
 										return INVALID;
diff --git a/src/handlebars.lex.c b/src/handlebars.lex.c
index 35e46ab..dcfa4a5 100644
--- a/src/handlebars.lex.c
+++ b/src/handlebars.lex.c
@@ -592,8 +592,8 @@ static void yynoreturn yy_fatal_error ( const char* msg , yyscan_t yyscanner );
 	yyg->yy_hold_char = *yy_cp; \
 	*yy_cp = '\0'; \
 	yyg->yy_c_buf_p = yy_cp;
-#define YY_NUM_RULES 52
-#define YY_END_OF_BUFFER 53
+#define YY_NUM_RULES 53
+#define YY_END_OF_BUFFER 54
 struct yy_trans_info
 	{
 	flex_int32_t yy_verify;
@@ -830,7 +830,7 @@ static const struct yy_trans_info yy_transition[21408] =
  { 253,2965 }, { 254,2965 }, { 255,2965 }, { 256,2965 }, {   0,   0 },
  {   0,20118 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
  {   5,3792 }, {   6,3792 }, {   7,3792 }, {   8,3792 }, {   9,3792 },
- {  10,2327 }, {  11,3792 }, {  12,3792 }, {  13,3792 }, {  14,3792 },
+ {  10,3794 }, {  11,3792 }, {  12,3792 }, {  13,3792 }, {  14,3792 },
 
  {  15,3792 }, {  16,3792 }, {  17,3792 }, {  18,3792 }, {  19,3792 },
  {  20,3792 }, {  21,3792 }, {  22,3792 }, {  23,3792 }, {  24,3792 },
@@ -887,7 +887,7 @@ static const struct yy_trans_info yy_transition[21408] =
  { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,19860 }, {   1,3534 },
  {   2,3534 }, {   3,3534 }, {   4,3534 }, {   5,3534 }, {   6,3534 },
 
- {   7,3534 }, {   8,3534 }, {   9,3534 }, {  10,2069 }, {  11,3534 },
+ {   7,3534 }, {   8,3534 }, {   9,3534 }, {  10,3536 }, {  11,3534 },
  {  12,3534 }, {  13,3534 }, {  14,3534 }, {  15,3534 }, {  16,3534 },
  {  17,3534 }, {  18,3534 }, {  19,3534 }, {  20,3534 }, {  21,3534 },
  {  22,3534 }, {  23,3534 }, {  24,3534 }, {  25,3534 }, {  26,3534 },
@@ -942,120 +942,120 @@ static const struct yy_trans_info yy_transition[21408] =
  { 247,3534 }, { 248,3534 }, { 249,3534 }, { 250,3534 }, { 251,3534 },
  { 252,3534 }, { 253,3534 }, { 254,3534 }, { 255,3534 }, { 256,3534 },
 
- {   0,   0 }, {   0,19602 }, {   1,3278 }, {   2,3278 }, {   3,3278 },
- {   4,3278 }, {   5,3278 }, {   6,3278 }, {   7,3278 }, {   8,3278 },
- {   9,3278 }, {  10,3278 }, {  11,3278 }, {  12,3278 }, {  13,3278 },
- {  14,3278 }, {  15,3278 }, {  16,3278 }, {  17,3278 }, {  18,3278 },
- {  19,3278 }, {  20,3278 }, {  21,3278 }, {  22,3278 }, {  23,3278 },
- {  24,3278 }, {  25,3278 }, {  26,3278 }, {  27,3278 }, {  28,3278 },
- {  29,3278 }, {  30,3278 }, {  31,3278 }, {  32,3278 }, {  33,3278 },
- {  34,3278 }, {  35,3278 }, {  36,3278 }, {  37,3278 }, {  38,3278 },
- {  39,3278 }, {  40,3278 }, {  41,3278 }, {  42,3278 }, {  43,3278 },
- {  44,3278 }, {  45,3278 }, {  46,3278 }, {  47,3278 }, {  48,3278 },
-
- {  49,3278 }, {  50,3278 }, {  51,3278 }, {  52,3278 }, {  53,3278 },
- {  54,3278 }, {  55,3278 }, {  56,3278 }, {  57,3278 }, {  58,3278 },
- {  59,3278 }, {  60,3278 }, {  61,3278 }, {  62,3278 }, {  63,3278 },
- {  64,3278 }, {  65,3278 }, {  66,3278 }, {  67,3278 }, {  68,3278 },
- {  69,3278 }, {  70,3278 }, {  71,3278 }, {  72,3278 }, {  73,3278 },
- {  74,3278 }, {  75,3278 }, {  76,3278 }, {  77,3278 }, {  78,3278 },
- {  79,3278 }, {  80,3278 }, {  81,3278 }, {  82,3278 }, {  83,3278 },
- {  84,3278 }, {  85,3278 }, {  86,3278 }, {  87,3278 }, {  88,3278 },
- {  89,3278 }, {  90,3278 }, {  91,3278 }, {  92,3278 }, {  93,3278 },
- {  94,3278 }, {  95,3278 }, {  96,3278 }, {  97,3278 }, {  98,3278 },
-
- {  99,3278 }, { 100,3278 }, { 101,3278 }, { 102,3278 }, { 103,3278 },
- { 104,3278 }, { 105,3278 }, { 106,3278 }, { 107,3278 }, { 108,3278 },
- { 109,3278 }, { 110,3278 }, { 111,3278 }, { 112,3278 }, { 113,3278 },
- { 114,3278 }, { 115,3278 }, { 116,3278 }, { 117,3278 }, { 118,3278 },
- { 119,3278 }, { 120,3278 }, { 121,3278 }, { 122,3278 }, { 123,5111 },
- { 124,3278 }, { 125,3278 }, { 126,3278 }, { 127,3278 }, { 128,3278 },
- { 129,3278 }, { 130,3278 }, { 131,3278 }, { 132,3278 }, { 133,3278 },
- { 134,3278 }, { 135,3278 }, { 136,3278 }, { 137,3278 }, { 138,3278 },
- { 139,3278 }, { 140,3278 }, { 141,3278 }, { 142,3278 }, { 143,3278 },
- { 144,3278 }, { 145,3278 }, { 146,3278 }, { 147,3278 }, { 148,3278 },
-
- { 149,3278 }, { 150,3278 }, { 151,3278 }, { 152,3278 }, { 153,3278 },
- { 154,3278 }, { 155,3278 }, { 156,3278 }, { 157,3278 }, { 158,3278 },
- { 159,3278 }, { 160,3278 }, { 161,3278 }, { 162,3278 }, { 163,3278 },
- { 164,3278 }, { 165,3278 }, { 166,3278 }, { 167,3278 }, { 168,3278 },
- { 169,3278 }, { 170,3278 }, { 171,3278 }, { 172,3278 }, { 173,3278 },
- { 174,3278 }, { 175,3278 }, { 176,3278 }, { 177,3278 }, { 178,3278 },
- { 179,3278 }, { 180,3278 }, { 181,3278 }, { 182,3278 }, { 183,3278 },
- { 184,3278 }, { 185,3278 }, { 186,3278 }, { 187,3278 }, { 188,3278 },
- { 189,3278 }, { 190,3278 }, { 191,3278 }, { 192,3278 }, { 193,3278 },
- { 194,3278 }, { 195,3278 }, { 196,3278 }, { 197,3278 }, { 198,3278 },
-
- { 199,3278 }, { 200,3278 }, { 201,3278 }, { 202,3278 }, { 203,3278 },
- { 204,3278 }, { 205,3278 }, { 206,3278 }, { 207,3278 }, { 208,3278 },
- { 209,3278 }, { 210,3278 }, { 211,3278 }, { 212,3278 }, { 213,3278 },
- { 214,3278 }, { 215,3278 }, { 216,3278 }, { 217,3278 }, { 218,3278 },
- { 219,3278 }, { 220,3278 }, { 221,3278 }, { 222,3278 }, { 223,3278 },
- { 224,3278 }, { 225,3278 }, { 226,3278 }, { 227,3278 }, { 228,3278 },
- { 229,3278 }, { 230,3278 }, { 231,3278 }, { 232,3278 }, { 233,3278 },
- { 234,3278 }, { 235,3278 }, { 236,3278 }, { 237,3278 }, { 238,3278 },
- { 239,3278 }, { 240,3278 }, { 241,3278 }, { 242,3278 }, { 243,3278 },
- { 244,3278 }, { 245,3278 }, { 246,3278 }, { 247,3278 }, { 248,3278 },
-
- { 249,3278 }, { 250,3278 }, { 251,3278 }, { 252,3278 }, { 253,3278 },
- { 254,3278 }, { 255,3278 }, { 256,3278 }, {   0,   0 }, {   0,19344 },
- {   1,3020 }, {   2,3020 }, {   3,3020 }, {   4,3020 }, {   5,3020 },
- {   6,3020 }, {   7,3020 }, {   8,3020 }, {   9,3020 }, {  10,3020 },
- {  11,3020 }, {  12,3020 }, {  13,3020 }, {  14,3020 }, {  15,3020 },
- {  16,3020 }, {  17,3020 }, {  18,3020 }, {  19,3020 }, {  20,3020 },
- {  21,3020 }, {  22,3020 }, {  23,3020 }, {  24,3020 }, {  25,3020 },
- {  26,3020 }, {  27,3020 }, {  28,3020 }, {  29,3020 }, {  30,3020 },
- {  31,3020 }, {  32,3020 }, {  33,3020 }, {  34,3020 }, {  35,3020 },
- {  36,3020 }, {  37,3020 }, {  38,3020 }, {  39,3020 }, {  40,3020 },
-
- {  41,3020 }, {  42,3020 }, {  43,3020 }, {  44,3020 }, {  45,3020 },
- {  46,3020 }, {  47,3020 }, {  48,3020 }, {  49,3020 }, {  50,3020 },
- {  51,3020 }, {  52,3020 }, {  53,3020 }, {  54,3020 }, {  55,3020 },
- {  56,3020 }, {  57,3020 }, {  58,3020 }, {  59,3020 }, {  60,3020 },
- {  61,3020 }, {  62,3020 }, {  63,3020 }, {  64,3020 }, {  65,3020 },
- {  66,3020 }, {  67,3020 }, {  68,3020 }, {  69,3020 }, {  70,3020 },
- {  71,3020 }, {  72,3020 }, {  73,3020 }, {  74,3020 }, {  75,3020 },
- {  76,3020 }, {  77,3020 }, {  78,3020 }, {  79,3020 }, {  80,3020 },
- {  81,3020 }, {  82,3020 }, {  83,3020 }, {  84,3020 }, {  85,3020 },
- {  86,3020 }, {  87,3020 }, {  88,3020 }, {  89,3020 }, {  90,3020 },
-
- {  91,3020 }, {  92,3020 }, {  93,3020 }, {  94,3020 }, {  95,3020 },
- {  96,3020 }, {  97,3020 }, {  98,3020 }, {  99,3020 }, { 100,3020 },
- { 101,3020 }, { 102,3020 }, { 103,3020 }, { 104,3020 }, { 105,3020 },
- { 106,3020 }, { 107,3020 }, { 108,3020 }, { 109,3020 }, { 110,3020 },
- { 111,3020 }, { 112,3020 }, { 113,3020 }, { 114,3020 }, { 115,3020 },
- { 116,3020 }, { 117,3020 }, { 118,3020 }, { 119,3020 }, { 120,3020 },
- { 121,3020 }, { 122,3020 }, { 123,4853 }, { 124,3020 }, { 125,3020 },
- { 126,3020 }, { 127,3020 }, { 128,3020 }, { 129,3020 }, { 130,3020 },
- { 131,3020 }, { 132,3020 }, { 133,3020 }, { 134,3020 }, { 135,3020 },
- { 136,3020 }, { 137,3020 }, { 138,3020 }, { 139,3020 }, { 140,3020 },
-
- { 141,3020 }, { 142,3020 }, { 143,3020 }, { 144,3020 }, { 145,3020 },
- { 146,3020 }, { 147,3020 }, { 148,3020 }, { 149,3020 }, { 150,3020 },
- { 151,3020 }, { 152,3020 }, { 153,3020 }, { 154,3020 }, { 155,3020 },
- { 156,3020 }, { 157,3020 }, { 158,3020 }, { 159,3020 }, { 160,3020 },
- { 161,3020 }, { 162,3020 }, { 163,3020 }, { 164,3020 }, { 165,3020 },
- { 166,3020 }, { 167,3020 }, { 168,3020 }, { 169,3020 }, { 170,3020 },
- { 171,3020 }, { 172,3020 }, { 173,3020 }, { 174,3020 }, { 175,3020 },
- { 176,3020 }, { 177,3020 }, { 178,3020 }, { 179,3020 }, { 180,3020 },
- { 181,3020 }, { 182,3020 }, { 183,3020 }, { 184,3020 }, { 185,3020 },
- { 186,3020 }, { 187,3020 }, { 188,3020 }, { 189,3020 }, { 190,3020 },
-
- { 191,3020 }, { 192,3020 }, { 193,3020 }, { 194,3020 }, { 195,3020 },
- { 196,3020 }, { 197,3020 }, { 198,3020 }, { 199,3020 }, { 200,3020 },
- { 201,3020 }, { 202,3020 }, { 203,3020 }, { 204,3020 }, { 205,3020 },
- { 206,3020 }, { 207,3020 }, { 208,3020 }, { 209,3020 }, { 210,3020 },
- { 211,3020 }, { 212,3020 }, { 213,3020 }, { 214,3020 }, { 215,3020 },
- { 216,3020 }, { 217,3020 }, { 218,3020 }, { 219,3020 }, { 220,3020 },
- { 221,3020 }, { 222,3020 }, { 223,3020 }, { 224,3020 }, { 225,3020 },
- { 226,3020 }, { 227,3020 }, { 228,3020 }, { 229,3020 }, { 230,3020 },
- { 231,3020 }, { 232,3020 }, { 233,3020 }, { 234,3020 }, { 235,3020 },
- { 236,3020 }, { 237,3020 }, { 238,3020 }, { 239,3020 }, { 240,3020 },
-
- { 241,3020 }, { 242,3020 }, { 243,3020 }, { 244,3020 }, { 245,3020 },
- { 246,3020 }, { 247,3020 }, { 248,3020 }, { 249,3020 }, { 250,3020 },
- { 251,3020 }, { 252,3020 }, { 253,3020 }, { 254,3020 }, { 255,3020 },
- { 256,3020 }, {   0,   0 }, {   0,19086 }, {   1,4720 }, {   2,4720 },
+ {   0,   0 }, {   0,19602 }, {   1,3280 }, {   2,3280 }, {   3,3280 },
+ {   4,3280 }, {   5,3280 }, {   6,3280 }, {   7,3280 }, {   8,3280 },
+ {   9,3280 }, {  10,3280 }, {  11,3280 }, {  12,3280 }, {  13,3280 },
+ {  14,3280 }, {  15,3280 }, {  16,3280 }, {  17,3280 }, {  18,3280 },
+ {  19,3280 }, {  20,3280 }, {  21,3280 }, {  22,3280 }, {  23,3280 },
+ {  24,3280 }, {  25,3280 }, {  26,3280 }, {  27,3280 }, {  28,3280 },
+ {  29,3280 }, {  30,3280 }, {  31,3280 }, {  32,3280 }, {  33,3280 },
+ {  34,3280 }, {  35,3280 }, {  36,3280 }, {  37,3280 }, {  38,3280 },
+ {  39,3280 }, {  40,3280 }, {  41,3280 }, {  42,3280 }, {  43,3280 },
+ {  44,3280 }, {  45,3280 }, {  46,3280 }, {  47,3280 }, {  48,3280 },
+
+ {  49,3280 }, {  50,3280 }, {  51,3280 }, {  52,3280 }, {  53,3280 },
+ {  54,3280 }, {  55,3280 }, {  56,3280 }, {  57,3280 }, {  58,3280 },
+ {  59,3280 }, {  60,3280 }, {  61,3280 }, {  62,3280 }, {  63,3280 },
+ {  64,3280 }, {  65,3280 }, {  66,3280 }, {  67,3280 }, {  68,3280 },
+ {  69,3280 }, {  70,3280 }, {  71,3280 }, {  72,3280 }, {  73,3280 },
+ {  74,3280 }, {  75,3280 }, {  76,3280 }, {  77,3280 }, {  78,3280 },
+ {  79,3280 }, {  80,3280 }, {  81,3280 }, {  82,3280 }, {  83,3280 },
+ {  84,3280 }, {  85,3280 }, {  86,3280 }, {  87,3280 }, {  88,3280 },
+ {  89,3280 }, {  90,3280 }, {  91,3280 }, {  92,3280 }, {  93,3280 },
+ {  94,3280 }, {  95,3280 }, {  96,3280 }, {  97,3280 }, {  98,3280 },
+
+ {  99,3280 }, { 100,3280 }, { 101,3280 }, { 102,3280 }, { 103,3280 },
+ { 104,3280 }, { 105,3280 }, { 106,3280 }, { 107,3280 }, { 108,3280 },
+ { 109,3280 }, { 110,3280 }, { 111,3280 }, { 112,3280 }, { 113,3280 },
+ { 114,3280 }, { 115,3280 }, { 116,3280 }, { 117,3280 }, { 118,3280 },
+ { 119,3280 }, { 120,3280 }, { 121,3280 }, { 122,3280 }, { 123,5111 },
+ { 124,3280 }, { 125,3280 }, { 126,3280 }, { 127,3280 }, { 128,3280 },
+ { 129,3280 }, { 130,3280 }, { 131,3280 }, { 132,3280 }, { 133,3280 },
+ { 134,3280 }, { 135,3280 }, { 136,3280 }, { 137,3280 }, { 138,3280 },
+ { 139,3280 }, { 140,3280 }, { 141,3280 }, { 142,3280 }, { 143,3280 },
+ { 144,3280 }, { 145,3280 }, { 146,3280 }, { 147,3280 }, { 148,3280 },
+
+ { 149,3280 }, { 150,3280 }, { 151,3280 }, { 152,3280 }, { 153,3280 },
+ { 154,3280 }, { 155,3280 }, { 156,3280 }, { 157,3280 }, { 158,3280 },
+ { 159,3280 }, { 160,3280 }, { 161,3280 }, { 162,3280 }, { 163,3280 },
+ { 164,3280 }, { 165,3280 }, { 166,3280 }, { 167,3280 }, { 168,3280 },
+ { 169,3280 }, { 170,3280 }, { 171,3280 }, { 172,3280 }, { 173,3280 },
+ { 174,3280 }, { 175,3280 }, { 176,3280 }, { 177,3280 }, { 178,3280 },
+ { 179,3280 }, { 180,3280 }, { 181,3280 }, { 182,3280 }, { 183,3280 },
+ { 184,3280 }, { 185,3280 }, { 186,3280 }, { 187,3280 }, { 188,3280 },
+ { 189,3280 }, { 190,3280 }, { 191,3280 }, { 192,3280 }, { 193,3280 },
+ { 194,3280 }, { 195,3280 }, { 196,3280 }, { 197,3280 }, { 198,3280 },
+
+ { 199,3280 }, { 200,3280 }, { 201,3280 }, { 202,3280 }, { 203,3280 },
+ { 204,3280 }, { 205,3280 }, { 206,3280 }, { 207,3280 }, { 208,3280 },
+ { 209,3280 }, { 210,3280 }, { 211,3280 }, { 212,3280 }, { 213,3280 },
+ { 214,3280 }, { 215,3280 }, { 216,3280 }, { 217,3280 }, { 218,3280 },
+ { 219,3280 }, { 220,3280 }, { 221,3280 }, { 222,3280 }, { 223,3280 },
+ { 224,3280 }, { 225,3280 }, { 226,3280 }, { 227,3280 }, { 228,3280 },
+ { 229,3280 }, { 230,3280 }, { 231,3280 }, { 232,3280 }, { 233,3280 },
+ { 234,3280 }, { 235,3280 }, { 236,3280 }, { 237,3280 }, { 238,3280 },
+ { 239,3280 }, { 240,3280 }, { 241,3280 }, { 242,3280 }, { 243,3280 },
+ { 244,3280 }, { 245,3280 }, { 246,3280 }, { 247,3280 }, { 248,3280 },
+
+ { 249,3280 }, { 250,3280 }, { 251,3280 }, { 252,3280 }, { 253,3280 },
+ { 254,3280 }, { 255,3280 }, { 256,3280 }, {   0,   0 }, {   0,19344 },
+ {   1,3022 }, {   2,3022 }, {   3,3022 }, {   4,3022 }, {   5,3022 },
+ {   6,3022 }, {   7,3022 }, {   8,3022 }, {   9,3022 }, {  10,3022 },
+ {  11,3022 }, {  12,3022 }, {  13,3022 }, {  14,3022 }, {  15,3022 },
+ {  16,3022 }, {  17,3022 }, {  18,3022 }, {  19,3022 }, {  20,3022 },
+ {  21,3022 }, {  22,3022 }, {  23,3022 }, {  24,3022 }, {  25,3022 },
+ {  26,3022 }, {  27,3022 }, {  28,3022 }, {  29,3022 }, {  30,3022 },
+ {  31,3022 }, {  32,3022 }, {  33,3022 }, {  34,3022 }, {  35,3022 },
+ {  36,3022 }, {  37,3022 }, {  38,3022 }, {  39,3022 }, {  40,3022 },
+
+ {  41,3022 }, {  42,3022 }, {  43,3022 }, {  44,3022 }, {  45,3022 },
+ {  46,3022 }, {  47,3022 }, {  48,3022 }, {  49,3022 }, {  50,3022 },
+ {  51,3022 }, {  52,3022 }, {  53,3022 }, {  54,3022 }, {  55,3022 },
+ {  56,3022 }, {  57,3022 }, {  58,3022 }, {  59,3022 }, {  60,3022 },
+ {  61,3022 }, {  62,3022 }, {  63,3022 }, {  64,3022 }, {  65,3022 },
+ {  66,3022 }, {  67,3022 }, {  68,3022 }, {  69,3022 }, {  70,3022 },
+ {  71,3022 }, {  72,3022 }, {  73,3022 }, {  74,3022 }, {  75,3022 },
+ {  76,3022 }, {  77,3022 }, {  78,3022 }, {  79,3022 }, {  80,3022 },
+ {  81,3022 }, {  82,3022 }, {  83,3022 }, {  84,3022 }, {  85,3022 },
+ {  86,3022 }, {  87,3022 }, {  88,3022 }, {  89,3022 }, {  90,3022 },
+
+ {  91,3022 }, {  92,3022 }, {  93,3022 }, {  94,3022 }, {  95,3022 },
+ {  96,3022 }, {  97,3022 }, {  98,3022 }, {  99,3022 }, { 100,3022 },
+ { 101,3022 }, { 102,3022 }, { 103,3022 }, { 104,3022 }, { 105,3022 },
+ { 106,3022 }, { 107,3022 }, { 108,3022 }, { 109,3022 }, { 110,3022 },
+ { 111,3022 }, { 112,3022 }, { 113,3022 }, { 114,3022 }, { 115,3022 },
+ { 116,3022 }, { 117,3022 }, { 118,3022 }, { 119,3022 }, { 120,3022 },
+ { 121,3022 }, { 122,3022 }, { 123,4853 }, { 124,3022 }, { 125,3022 },
+ { 126,3022 }, { 127,3022 }, { 128,3022 }, { 129,3022 }, { 130,3022 },
+ { 131,3022 }, { 132,3022 }, { 133,3022 }, { 134,3022 }, { 135,3022 },
+ { 136,3022 }, { 137,3022 }, { 138,3022 }, { 139,3022 }, { 140,3022 },
+
+ { 141,3022 }, { 142,3022 }, { 143,3022 }, { 144,3022 }, { 145,3022 },
+ { 146,3022 }, { 147,3022 }, { 148,3022 }, { 149,3022 }, { 150,3022 },
+ { 151,3022 }, { 152,3022 }, { 153,3022 }, { 154,3022 }, { 155,3022 },
+ { 156,3022 }, { 157,3022 }, { 158,3022 }, { 159,3022 }, { 160,3022 },
+ { 161,3022 }, { 162,3022 }, { 163,3022 }, { 164,3022 }, { 165,3022 },
+ { 166,3022 }, { 167,3022 }, { 168,3022 }, { 169,3022 }, { 170,3022 },
+ { 171,3022 }, { 172,3022 }, { 173,3022 }, { 174,3022 }, { 175,3022 },
+ { 176,3022 }, { 177,3022 }, { 178,3022 }, { 179,3022 }, { 180,3022 },
+ { 181,3022 }, { 182,3022 }, { 183,3022 }, { 184,3022 }, { 185,3022 },
+ { 186,3022 }, { 187,3022 }, { 188,3022 }, { 189,3022 }, { 190,3022 },
+
+ { 191,3022 }, { 192,3022 }, { 193,3022 }, { 194,3022 }, { 195,3022 },
+ { 196,3022 }, { 197,3022 }, { 198,3022 }, { 199,3022 }, { 200,3022 },
+ { 201,3022 }, { 202,3022 }, { 203,3022 }, { 204,3022 }, { 205,3022 },
+ { 206,3022 }, { 207,3022 }, { 208,3022 }, { 209,3022 }, { 210,3022 },
+ { 211,3022 }, { 212,3022 }, { 213,3022 }, { 214,3022 }, { 215,3022 },
+ { 216,3022 }, { 217,3022 }, { 218,3022 }, { 219,3022 }, { 220,3022 },
+ { 221,3022 }, { 222,3022 }, { 223,3022 }, { 224,3022 }, { 225,3022 },
+ { 226,3022 }, { 227,3022 }, { 228,3022 }, { 229,3022 }, { 230,3022 },
+ { 231,3022 }, { 232,3022 }, { 233,3022 }, { 234,3022 }, { 235,3022 },
+ { 236,3022 }, { 237,3022 }, { 238,3022 }, { 239,3022 }, { 240,3022 },
+
+ { 241,3022 }, { 242,3022 }, { 243,3022 }, { 244,3022 }, { 245,3022 },
+ { 246,3022 }, { 247,3022 }, { 248,3022 }, { 249,3022 }, { 250,3022 },
+ { 251,3022 }, { 252,3022 }, { 253,3022 }, { 254,3022 }, { 255,3022 },
+ { 256,3022 }, {   0,   0 }, {   0,19086 }, {   1,4720 }, {   2,4720 },
  {   3,4720 }, {   4,4720 }, {   5,4720 }, {   6,4720 }, {   7,4720 },
  {   8,4720 }, {   9,4720 }, {  10,4720 }, {  11,4720 }, {  12,4720 },
  {  13,4720 }, {  14,4720 }, {  15,4720 }, {  16,4720 }, {  17,4720 },
@@ -1340,12 +1340,12 @@ static const struct yy_trans_info yy_transition[21408] =
 
  { 251,4586 }, { 252,4586 }, { 253,4586 }, { 254,4586 }, { 255,4586 },
  {   0,   2 }, {   0,17797 }, {   0,   6 }, {   0,17795 }, {   0,   6 },
- {   0,17793 }, {   0,  52 }, {   0,17791 }, {   0,  36 }, {   0,17789 },
+ {   0,17793 }, {   0,  14 }, {   0,17791 }, {   0,  37 }, {   0,17789 },
  {   0,   0 }, {  10,4206 }, {   0,   0 }, {   0,   0 }, {  13,4206 },
- {   0,  36 }, {   0,17782 }, {   0,   0 }, {   9,4867 }, {  10,4867 },
- {   0,  51 }, {   0,17777 }, {  13,4867 }, {   0,  15 }, {   0,17774 },
- {   9,4860 }, {  10,4860 }, {   0,  16 }, {   0,17770 }, {  13,4860 },
- {   0,  35 }, {   0,17767 }, {   0,  32 }, {   0,17765 }, {   0,  41 },
+ {   0,  37 }, {   0,17782 }, {   0,   0 }, {   9,4867 }, {  10,4867 },
+ {   0,  52 }, {   0,17777 }, {  13,4867 }, {   0,  16 }, {   0,17774 },
+ {   9,4860 }, {  10,4860 }, {   0,  17 }, {   0,17770 }, {  13,4860 },
+ {   0,  36 }, {   0,17767 }, {   0,  33 }, {   0,17765 }, {   0,  42 },
  {   0,17763 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  32,4867 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
@@ -1423,7 +1423,7 @@ static const struct yy_trans_info yy_transition[21408] =
  { 240,4200 }, { 241,4200 }, { 242,4200 }, { 243,4200 }, { 244,4200 },
  { 245,4200 }, { 246,4200 }, { 247,4200 }, { 248,4200 }, { 249,4200 },
  { 250,4200 }, { 251,4200 }, { 252,4200 }, { 253,4200 }, { 254,4200 },
- { 255,4200 }, {   0,  51 }, {   0,17411 }, {   1,4231 }, {   2,4231 },
+ { 255,4200 }, {   0,  52 }, {   0,17411 }, {   1,4231 }, {   2,4231 },
  {   3,4231 }, {   4,4231 }, {   5,4231 }, {   6,4231 }, {   7,4231 },
 
  {   8,4231 }, {   9,4206 }, {  10,4206 }, {  11,4231 }, {  12,4231 },
@@ -1479,7 +1479,7 @@ static const struct yy_trans_info yy_transition[21408] =
  { 238,4231 }, { 239,4231 }, { 240,4231 }, { 241,4231 }, { 242,4231 },
  { 243,4231 }, { 244,4231 }, { 245,4231 }, { 246,4231 }, { 247,4231 },
  { 248,4231 }, { 249,4231 }, { 250,4231 }, { 251,4231 }, { 252,4231 },
- { 253,4231 }, { 254,4231 }, { 255,4231 }, { 256,4231 }, {   0,  51 },
+ { 253,4231 }, { 254,4231 }, { 255,4231 }, { 256,4231 }, {   0,  52 },
 
  {   0,17153 }, {   1,4265 }, {   2,4265 }, {   3,4265 }, {   4,4265 },
  {   5,4265 }, {   6,4265 }, {   7,4265 }, {   8,4265 }, {   9,4265 },
@@ -1537,7 +1537,7 @@ static const struct yy_trans_info yy_transition[21408] =
  { 245,4265 }, { 246,4265 }, { 247,4265 }, { 248,4265 }, { 249,4265 },
 
  { 250,4265 }, { 251,4265 }, { 252,4265 }, { 253,4265 }, { 254,4265 },
- { 255,4265 }, { 256,4265 }, {   0,  51 }, {   0,16895 }, {   1,4523 },
+ { 255,4265 }, { 256,4265 }, {   0,  52 }, {   0,16895 }, {   1,4523 },
  {   2,4523 }, {   3,4523 }, {   4,4523 }, {   5,4523 }, {   6,4523 },
  {   7,4523 }, {   8,4523 }, {   9,4523 }, {  10,4523 }, {  11,4523 },
  {  12,4523 }, {  13,4523 }, {  14,4523 }, {  15,4523 }, {  16,4523 },
@@ -1594,7 +1594,7 @@ static const struct yy_trans_info yy_transition[21408] =
  { 242,4523 }, { 243,4523 }, { 244,4523 }, { 245,4523 }, { 246,4523 },
  { 247,4523 }, { 248,4523 }, { 249,4523 }, { 250,4523 }, { 251,4523 },
  { 252,4523 }, { 253,4523 }, { 254,4523 }, { 255,4523 }, { 256,4523 },
- {   0,  51 }, {   0,16637 }, {   1,3457 }, {   2,3457 }, {   3,3457 },
+ {   0,  52 }, {   0,16637 }, {   1,3457 }, {   2,3457 }, {   3,3457 },
  {   4,3457 }, {   5,3457 }, {   6,3457 }, {   7,3457 }, {   8,3457 },
  {   9,3432 }, {  10,3432 }, {  11,3457 }, {  12,3457 }, {  13,3432 },
  {  14,3457 }, {  15,3457 }, {  16,3457 }, {  17,3457 }, {  18,3457 },
@@ -1650,26 +1650,26 @@ static const struct yy_trans_info yy_transition[21408] =
  { 239,3457 }, { 240,3457 }, { 241,3457 }, { 242,3457 }, { 243,3457 },
  { 244,3457 }, { 245,3457 }, { 246,3457 }, { 247,3457 }, { 248,3457 },
  { 249,3457 }, { 250,3457 }, { 251,3457 }, { 252,3457 }, { 253,3457 },
- { 254,3457 }, { 255,3457 }, { 256,3457 }, {   0,  35 }, {   0,16379 },
+ { 254,3457 }, { 255,3457 }, { 256,3457 }, {   0,  36 }, {   0,16379 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,3463 }, {  10,3463 },
  {   0,   0 }, {   0,   0 }, {  13,3463 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,  51 }, {   0,16361 }, {   0,  43 }, {   0,16359 },
+ {   0,   0 }, {   0,  52 }, {   0,16361 }, {   0,  44 }, {   0,16359 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  32,3463 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  41,3463 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  46,3465 }, {  47,3463 }, {   0,  51 }, {   0,16330 }, {   0,  51 },
- {   0,16328 }, {   0,   7 }, {   0,16326 }, {   0,  14 }, {   0,16324 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  46,3465 }, {  47,3463 }, {   0,  52 }, {   0,16330 }, {   0,  52 },
+ {   0,16328 }, {   0,   7 }, {   0,16326 }, {   0,  53 }, {   0,16324 },
+ {   0,  15 }, {   0,16322 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  61,3463 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,  51 }, {   0,16297 }, {   1,3117 }, {   2,3117 }, {   3,3117 },
+ {   0,  52 }, {   0,16297 }, {   1,3117 }, {   2,3117 }, {   3,3117 },
  {   4,3117 }, {   5,3117 }, {   6,3117 }, {   7,3117 }, {   8,3117 },
  {   9,3387 }, {  10,3387 }, {  11,3117 }, {  12,3117 }, {  13,3387 },
  {  14,3117 }, {  15,3117 }, {  16,3117 }, {  17,3117 }, {  18,3117 },
@@ -1725,7 +1725,7 @@ static const struct yy_trans_info yy_transition[21408] =
 
  { 244,3117 }, { 245,3117 }, { 246,3117 }, { 247,3117 }, { 248,3117 },
  { 249,3117 }, { 250,3117 }, { 251,3117 }, { 252,3117 }, { 253,3117 },
- { 254,3117 }, { 255,3117 }, { 256,3117 }, {   0,  51 }, {   0,16039 },
+ { 254,3117 }, { 255,3117 }, { 256,3117 }, {   0,  52 }, {   0,16039 },
  {   1,4500 }, {   2,4500 }, {   3,4500 }, {   4,4500 }, {   5,4500 },
  {   6,4500 }, {   7,4500 }, {   8,4500 }, {   9,4500 }, {  10,4500 },
  {  11,4500 }, {  12,4500 }, {  13,4500 }, {  14,4500 }, {  15,4500 },
@@ -1782,7 +1782,7 @@ static const struct yy_trans_info yy_transition[21408] =
  { 241,4500 }, { 242,4500 }, { 243,4500 }, { 244,4500 }, { 245,4500 },
  { 246,4500 }, { 247,4500 }, { 248,4500 }, { 249,4500 }, { 250,4500 },
  { 251,4500 }, { 252,4500 }, { 253,4500 }, { 254,4500 }, { 255,4500 },
- { 256,4500 }, {   0,  51 }, {   0,15781 }, {   1,2601 }, {   2,2601 },
+ { 256,4500 }, {   0,  52 }, {   0,15781 }, {   1,2601 }, {   2,2601 },
  {   3,2601 }, {   4,2601 }, {   5,2601 }, {   6,2601 }, {   7,2601 },
  {   8,2601 }, {   9,2576 }, {  10,2576 }, {  11,2601 }, {  12,2601 },
  {  13,2576 }, {  14,2601 }, {  15,2601 }, {  16,2601 }, {  17,2601 },
@@ -1838,7 +1838,7 @@ static const struct yy_trans_info yy_transition[21408] =
  { 238,2601 }, { 239,2601 }, { 240,2601 }, { 241,2601 }, { 242,2601 },
  { 243,2601 }, { 244,2601 }, { 245,2601 }, { 246,2601 }, { 247,2601 },
  { 248,2601 }, { 249,2601 }, { 250,2601 }, { 251,2601 }, { 252,2601 },
- { 253,2601 }, { 254,2601 }, { 255,2601 }, { 256,2601 }, {   0,  51 },
+ { 253,2601 }, { 254,2601 }, { 255,2601 }, { 256,2601 }, {   0,  52 },
  {   0,15523 }, {   1,2343 }, {   2,2343 }, {   3,2343 }, {   4,2343 },
  {   5,2343 }, {   6,2343 }, {   7,2343 }, {   8,2343 }, {   9,2318 },
  {  10,2318 }, {  11,2343 }, {  12,2343 }, {  13,2318 }, {  14,2343 },
@@ -1895,7 +1895,7 @@ static const struct yy_trans_info yy_transition[21408] =
  { 240,2343 }, { 241,2343 }, { 242,2343 }, { 243,2343 }, { 244,2343 },
  { 245,2343 }, { 246,2343 }, { 247,2343 }, { 248,2343 }, { 249,2343 },
  { 250,2343 }, { 251,2343 }, { 252,2343 }, { 253,2343 }, { 254,2343 },
- { 255,2343 }, { 256,2343 }, {   0,  51 }, {   0,15265 }, {   1,2085 },
+ { 255,2343 }, { 256,2343 }, {   0,  52 }, {   0,15265 }, {   1,2085 },
  {   2,2085 }, {   3,2085 }, {   4,2085 }, {   5,2085 }, {   6,2085 },
  {   7,2085 }, {   8,2085 }, {   9,2060 }, {  10,2060 }, {  11,2085 },
 
@@ -1952,7 +1952,7 @@ static const struct yy_trans_info yy_transition[21408] =
  { 242,2085 }, { 243,2085 }, { 244,2085 }, { 245,2085 }, { 246,2085 },
  { 247,2085 }, { 248,2085 }, { 249,2085 }, { 250,2085 }, { 251,2085 },
  { 252,2085 }, { 253,2085 }, { 254,2085 }, { 255,2085 }, { 256,2085 },
- {   0,  51 }, {   0,15007 }, {   1,1827 }, {   2,1827 }, {   3,1827 },
+ {   0,  52 }, {   0,15007 }, {   1,1827 }, {   2,1827 }, {   3,1827 },
 
  {   4,1827 }, {   5,1827 }, {   6,1827 }, {   7,1827 }, {   8,1827 },
  {   9,1802 }, {  10,1802 }, {  11,1827 }, {  12,1827 }, {  13,1802 },
@@ -2009,7 +2009,7 @@ static const struct yy_trans_info yy_transition[21408] =
  { 244,1827 }, { 245,1827 }, { 246,1827 }, { 247,1827 }, { 248,1827 },
  { 249,1827 }, { 250,1827 }, { 251,1827 }, { 252,1827 }, { 253,1827 },
 
- { 254,1827 }, { 255,1827 }, { 256,1827 }, {   0,  51 }, {   0,14749 },
+ { 254,1827 }, { 255,1827 }, { 256,1827 }, {   0,  52 }, {   0,14749 },
  {   1,1569 }, {   2,1569 }, {   3,1569 }, {   4,1569 }, {   5,1569 },
  {   6,1569 }, {   7,1569 }, {   8,1569 }, {   9,1544 }, {  10,1544 },
  {  11,1569 }, {  12,1569 }, {  13,1544 }, {  14,1569 }, {  15,1569 },
@@ -2066,7 +2066,7 @@ static const struct yy_trans_info yy_transition[21408] =
 
  { 246,1569 }, { 247,1569 }, { 248,1569 }, { 249,1569 }, { 250,1569 },
  { 251,1569 }, { 252,1569 }, { 253,1569 }, { 254,1569 }, { 255,1569 },
- { 256,1569 }, {   0,  14 }, {   0,14491 }, {   0,   0 }, {   0,   0 },
+ { 256,1569 }, {   0,  15 }, {   0,14491 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -2093,7 +2093,7 @@ static const struct yy_trans_info yy_transition[21408] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 123,4766 }, {   0,  14 }, {   0,14366 }, {   1,4769 }, {   2,4769 },
+ { 123,4766 }, {   0,  15 }, {   0,14366 }, {   1,4769 }, {   2,4769 },
  {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 }, {   7,4769 },
  {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 }, {  12,4769 },
 
@@ -2149,7 +2149,7 @@ static const struct yy_trans_info yy_transition[21408] =
  { 238,4769 }, { 239,4769 }, { 240,4769 }, { 241,4769 }, { 242,4769 },
  { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 }, { 247,4769 },
  { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 }, { 252,4769 },
- { 253,4769 }, { 254,4769 }, { 255,4769 }, { 256,4769 }, {   0,  14 },
+ { 253,4769 }, { 254,4769 }, { 255,4769 }, { 256,4769 }, {   0,  15 },
  {   0,14108 }, {   1,4511 }, {   2,4511 }, {   3,4511 }, {   4,4511 },
 
  {   5,4511 }, {   6,4511 }, {   7,4511 }, {   8,4511 }, {   9,4511 },
@@ -2348,7 +2348,7 @@ static const struct yy_trans_info yy_transition[21408] =
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
  { 255,   0 }, {   0,   0 }, {   0,13211 }, {   0,   0 }, {   0,13209 },
- {   0,   5 }, {   0,13207 }, {   0,  49 }, {   0,13205 }, {   0,   0 },
+ {   0,   5 }, {   0,13207 }, {   0,  50 }, {   0,13205 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -2411,10 +2411,10 @@ static const struct yy_trans_info yy_transition[21408] =
  { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
  { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
  { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,  36 }, {   0,12922 }, {   0,  39 }, {   0,12920 }, {   0,  40 },
- {   0,12918 }, {   0,  34 }, {   0,12916 }, {   0,  33 }, {   0,12914 },
- {   9,   0 }, {  10,   0 }, {   0,  48 }, {   0,12910 }, {  13,   0 },
- {   0,  50 }, {   0,12907 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  37 }, {   0,12922 }, {   0,  40 }, {   0,12920 }, {   0,  41 },
+ {   0,12918 }, {   0,  35 }, {   0,12916 }, {   0,  34 }, {   0,12914 },
+ {   9,   0 }, {  10,   0 }, {   0,  49 }, {   0,12910 }, {  13,   0 },
+ {   0,  51 }, {   0,12907 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -2702,7 +2702,7 @@ static const struct yy_trans_info yy_transition[21408] =
  { 243,-1324 }, { 244,-1324 }, { 245,-1324 }, { 246,-1324 }, { 247,-1324 },
  { 248,-1324 }, { 249,-1324 }, { 250,-1324 }, { 251,-1324 }, { 252,-1324 },
 
- { 253,-1324 }, { 254,-1324 }, { 255,-1324 }, { 256,-1324 }, {   0,  49 },
+ { 253,-1324 }, { 254,-1324 }, { 255,-1324 }, { 256,-1324 }, {   0,  50 },
  {   0,11598 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3112,8 +3112,8 @@ static const struct yy_trans_info yy_transition[21408] =
  { 238,-3189 }, { 239,-3189 }, { 240,-3189 }, { 241,-3189 }, { 242,-3189 },
  { 243,-3189 }, { 244,-3189 }, { 245,-3189 }, { 246,-3189 }, { 247,-3189 },
  { 248,-3189 }, { 249,-3189 }, { 250,-3189 }, { 251,-3189 }, { 252,-3189 },
- { 253,-3189 }, { 254,-3189 }, { 255,-3189 }, { 256,-3189 }, {   0,  31 },
- {   0,9733 }, {   0,  38 }, {   0,9731 }, {   0,   0 }, {   0,9729 },
+ { 253,-3189 }, { 254,-3189 }, { 255,-3189 }, { 256,-3189 }, {   0,  32 },
+ {   0,9733 }, {   0,  39 }, {   0,9731 }, {   0,   0 }, {   0,9729 },
  {   0,   0 }, {   0,9727 }, {   0,   0 }, {   0,9725 }, {   9,3229 },
  {  10,3229 }, {   0,  13 }, {   0,9721 }, {  13,3229 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3334,7 +3334,7 @@ static const struct yy_trans_info yy_transition[21408] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,  49 }, {   0,8727 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  50 }, {   0,8727 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3397,7 +3397,7 @@ static const struct yy_trans_info yy_transition[21408] =
 
  { 242,2722 }, { 243,2722 }, { 244,2722 }, { 245,2722 }, { 246,2722 },
  { 247,2722 }, { 248,2722 }, { 249,2722 }, { 250,2722 }, { 251,2722 },
- { 252,2722 }, { 253,2722 }, { 254,2722 }, { 255,2722 }, {   0,  39 },
+ { 252,2722 }, { 253,2722 }, { 254,2722 }, { 255,2722 }, {   0,  40 },
  {   0,8438 }, {   1,-4450 }, {   2,-4450 }, {   3,-4450 }, {   4,-4450 },
  {   5,-4450 }, {   6,-4450 }, {   7,-4450 }, {   8,-4450 }, {   9,-4450 },
  {  10,-4450 }, {  11,-4450 }, {  12,-4450 }, {  13,-4450 }, {  14,-4450 },
@@ -3454,7 +3454,7 @@ static const struct yy_trans_info yy_transition[21408] =
  { 240,-4450 }, { 241,-4450 }, { 242,-4450 }, { 243,-4450 }, { 244,-4450 },
  { 245,-4450 }, { 246,-4450 }, { 247,-4450 }, { 248,-4450 }, { 249,-4450 },
  { 250,-4450 }, { 251,-4450 }, { 252,-4450 }, { 253,-4450 }, { 254,-4450 },
- { 255,-4450 }, { 256,-4450 }, {   0,  40 }, {   0,8180 }, {   1,-4192 },
+ { 255,-4450 }, { 256,-4450 }, {   0,  41 }, {   0,8180 }, {   1,-4192 },
  {   2,-4192 }, {   3,-4192 }, {   4,-4192 }, {   5,-4192 }, {   6,-4192 },
  {   7,-4192 }, {   8,-4192 }, {   9,-4192 }, {  10,-4192 }, {  11,-4192 },
  {  12,-4192 }, {  13,-4192 }, {  14,-4192 }, {  15,-4192 }, {  16,-4192 },
@@ -3511,10 +3511,10 @@ static const struct yy_trans_info yy_transition[21408] =
  { 242,-4192 }, { 243,-4192 }, { 244,-4192 }, { 245,-4192 }, { 246,-4192 },
  { 247,-4192 }, { 248,-4192 }, { 249,-4192 }, { 250,-4192 }, { 251,-4192 },
  { 252,-4192 }, { 253,-4192 }, { 254,-4192 }, { 255,-4192 }, { 256,-4192 },
- {   0,   0 }, {   0,7922 }, {   0,  30 }, {   0,7920 }, {   0,  21 },
- {   0,7918 }, {   0,  28 }, {   0,7916 }, {   0,  31 }, {   0,7914 },
- {   9,1828 }, {  10,1828 }, {   0,  22 }, {   0,7910 }, {  13,1828 },
- {   0,  19 }, {   0,7907 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,7922 }, {   0,  31 }, {   0,7920 }, {   0,  22 },
+ {   0,7918 }, {   0,  29 }, {   0,7916 }, {   0,  32 }, {   0,7914 },
+ {   9,1828 }, {  10,1828 }, {   0,  23 }, {   0,7910 }, {  13,1828 },
+ {   0,  20 }, {   0,7907 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3539,7 +3539,7 @@ static const struct yy_trans_info yy_transition[21408] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,1828 }, { 126,1828 }, {   0,  50 }, {   0,7794 },
+ {   0,   0 }, { 125,1828 }, { 126,1828 }, {   0,  51 }, {   0,7794 },
  {   1,-3745 }, {   2,-3745 }, {   3,-3745 }, {   4,-3745 }, {   5,-3745 },
  {   6,-3745 }, {   7,-3745 }, {   8,-3745 }, {   9,-3745 }, {  10,-3745 },
  {  11,-3745 }, {  12,-3745 }, {  13,-3745 }, {  14,-3745 }, {  15,-3745 },
@@ -3824,10 +3824,10 @@ static const struct yy_trans_info yy_transition[21408] =
  { 249,-6418 }, { 250,-6418 }, { 251,-6418 }, { 252,-6418 }, { 253,-6418 },
  { 254,-6418 }, { 255,-6418 }, { 256,-6418 }, {   0,   0 }, {   0,6504 },
 
- {   0,  25 }, {   0,6502 }, {   0,   0 }, {   0,6500 }, {   0,   0 },
- {   0,6498 }, {   0,  27 }, {   0,6496 }, {   9,   0 }, {  10,   0 },
- {   0,  37 }, {   0,6492 }, {  13,   0 }, {   0,  31 }, {   0,6489 },
- {   0,   0 }, {   0,6487 }, {   0,  38 }, {   0,6485 }, {   0,   0 },
+ {   0,  26 }, {   0,6502 }, {   0,   0 }, {   0,6500 }, {   0,   0 },
+ {   0,6498 }, {   0,  28 }, {   0,6496 }, {   9,   0 }, {  10,   0 },
+ {   0,  38 }, {   0,6492 }, {  13,   0 }, {   0,  32 }, {   0,6489 },
+ {   0,   0 }, {   0,6487 }, {   0,  39 }, {   0,6485 }, {   0,   0 },
  {   0,6483 }, {   0,   0 }, {   0,   0 }, {   9, -15 }, {  10, -15 },
  {   0,   0 }, {   0,   0 }, {  13, -15 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  32,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3913,10 +3913,10 @@ static const struct yy_trans_info yy_transition[21408] =
  { 252,2064 }, { 253,2064 }, { 254,2064 }, { 255,2064 }, { 256,2064 },
 
  {   0,   0 }, {   0,6102 }, {   0,   0 }, {   0,6100 }, {   0,   1 },
- {   0,6098 }, {   0,   4 }, {   0,6096 }, {   0,  48 }, {   0,6094 },
- {   0,  42 }, {   0,6092 }, {   0,   0 }, {   0,6090 }, {   0,   0 },
- {   0,6088 }, {   0,   0 }, {  10,   0 }, {   0,  21 }, {   0,6084 },
- {  13,   0 }, {   0,  20 }, {   0,6081 }, {   0,   0 }, {   0,   0 },
+ {   0,6098 }, {   0,   4 }, {   0,6096 }, {   0,  49 }, {   0,6094 },
+ {   0,  43 }, {   0,6092 }, {   0,   0 }, {   0,6090 }, {   0,   0 },
+ {   0,6088 }, {   0,   0 }, {  10,   0 }, {   0,  22 }, {   0,6084 },
+ {  13,   0 }, {   0,  21 }, {   0,6081 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -4282,8 +4282,8 @@ static const struct yy_trans_info yy_transition[21408] =
  { 252,-8495 }, { 253,-8495 }, { 254,-8495 }, { 255,-8495 }, { 256,-8495 },
  {   0,   0 }, {   0,4427 }, {   0,   0 }, {   0,4425 }, {   0,   0 },
  {   0,4423 }, {   0,   0 }, {   0,4421 }, {   0,   0 }, {   0,4419 },
- {   0,  17 }, {   0,4417 }, {   0,  27 }, {   0,4415 }, {   0,  18 },
- {   0,4413 }, {   0,  37 }, {   0,4411 }, {   0,   0 }, {   0,   0 },
+ {   0,  18 }, {   0,4417 }, {   0,  28 }, {   0,4415 }, {   0,  19 },
+ {   0,4413 }, {   0,  38 }, {   0,4411 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -4479,8 +4479,8 @@ static const struct yy_trans_info yy_transition[21408] =
  { 242, 811 }, { 243, 811 }, { 244, 811 }, { 245, 811 }, { 246, 811 },
  { 247, 811 }, { 248, 811 }, { 249, 811 }, { 250, 811 }, { 251, 811 },
  { 252, 811 }, { 253, 811 }, { 254, 811 }, { 255, 811 }, { 256, 811 },
- {   0,   1 }, {   0,3522 }, {   0,   1 }, {   0,3520 }, {   0,  47 },
- {   0,3518 }, {   0,  44 }, {   0,3516 }, {   0,   0 }, {   0,   0 },
+ {   0,   1 }, {   0,3522 }, {   0,   1 }, {   0,3520 }, {   0,  48 },
+ {   0,3518 }, {   0,  45 }, {   0,3516 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
@@ -4599,9 +4599,9 @@ static const struct yy_trans_info yy_transition[21408] =
  { 244,-9943 }, { 245,-9943 }, { 246,-9943 }, { 247,-9943 }, { 248,-9943 },
  { 249,-9943 }, { 250,-9943 }, { 251,-9943 }, { 252,-9943 }, { 253,-9943 },
  { 254,-9943 }, { 255,-9943 }, { 256,-9943 }, {   0,   0 }, {   0,2979 },
- {   0,  29 }, {   0,2977 }, {   0,  23 }, {   0,2975 }, {   0,   0 },
+ {   0,  30 }, {   0,2977 }, {   0,  24 }, {   0,2975 }, {   0,   0 },
  {   0,2973 }, {   0,   0 }, {   0,2971 }, {   0,   8 }, {   0,2969 },
- {   0,   1 }, {   0,2967 }, {   0,  45 }, {   0,2965 }, {   0,   0 },
+ {   0,   1 }, {   0,2967 }, {   0,  46 }, {   0,2965 }, {   0,   0 },
  {   0,2963 }, {   0,   0 }, {   0,2961 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
@@ -4796,7 +4796,7 @@ static const struct yy_trans_info yy_transition[21408] =
  { 240,-10842 }, { 241,-10842 }, { 242,-10842 }, { 243,-10842 }, { 244,-10842 },
  { 245,-10842 }, { 246,-10842 }, { 247,-10842 }, { 248,-10842 }, { 249,-10842 },
  { 250,-10842 }, { 251,-10842 }, { 252,-10842 }, { 253,-10842 }, { 254,-10842 },
- { 255,-10842 }, { 256,-10842 }, {   0,  26 }, {   0,2080 }, {   0,   0 },
+ { 255,-10842 }, { 256,-10842 }, {   0,  27 }, {   0,2080 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   9,1420 }, {  10,1420 }, {   0,   0 },
  {   0,   0 }, {  13,1420 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -5109,18 +5109,18 @@ static const struct yy_trans_info yy_transition[21408] =
  { 247,-12260 }, { 248,-12260 }, { 249,-12260 }, { 250,-12260 }, { 251,-12260 },
  { 252,-12260 }, { 253,-12260 }, { 254,-12260 }, { 255,-12260 }, { 256,-12260 },
  {   0,   0 }, {   0, 662 }, {   0,   0 }, {   0, 660 }, {   0,   0 },
- {   0, 658 }, {   0,   0 }, {   0, 656 }, {   0,  26 }, {   0, 654 },
+ {   0, 658 }, {   0,   0 }, {   0, 656 }, {   0,  27 }, {   0, 654 },
 
  {   9,   2 }, {  10,   2 }, {   9,   0 }, {  10,   0 }, {  13,   2 },
  {   0,   0 }, {  13,   0 }, {   0,  12 }, {   0, 645 }, {   0,   0 },
- {   0, 643 }, {   0,  24 }, {   0, 641 }, {   0,   0 }, {   0,   0 },
+ {   0, 643 }, {   0,  25 }, {   0, 641 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   2 }, {   0,   0 },
  {  32,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0, 608 }, {   0,   0 }, {   0, 606 }, {   0,  46 }, {   0, 604 },
+ {   0, 608 }, {   0,   0 }, {   0, 606 }, {   0,  47 }, {   0, 604 },
 
  {   0,   9 }, {   0, 602 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -5254,7 +5254,7 @@ static const struct yy_trans_info yy_transition[21408] =
  { 245,-12922 }, { 246,-12922 }, { 247,-12922 }, { 248,-12922 }, { 249,-12922 },
  { 250,-12922 }, { 251,-12922 }, { 252,-12922 }, { 253,-12922 }, { 254,-12922 },
 
- { 255,-12922 }, { 256,-12922 }, { 257,  53 }, {   1,   0 },    };
+ { 255,-12922 }, { 256,-12922 }, { 257,  54 }, {   1,   0 },    };
 
 static const struct yy_trans_info *yy_start_state_list[13] =
     {
@@ -5275,11 +5275,11 @@ static const struct yy_trans_info *yy_start_state_list[13] =
     } ;
 
 /* Table of booleans, true if rule could match eol. */
-static const flex_int32_t yy_rule_can_match_eol[53] =
+static const flex_int32_t yy_rule_can_match_eol[54] =
     {   0,
-1, 1, 0, 1, 0, 0, 0, 1, 0, 1, 0, 1, 1, 1, 0, 0, 0, 0, 0, 
-    0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 1, 
-    1, 0, 1, 0, 1, 1, 1, 1, 1, 1, 1, 0, 0,     };
+1, 1, 0, 1, 0, 0, 0, 1, 0, 1, 0, 1, 1, 0, 1, 0, 0, 0, 0, 
+    0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 
+    1, 1, 0, 1, 0, 1, 1, 1, 1, 1, 1, 1, 0, 0,     };
 
 /* The intent behind this definition is that it'll catch
  * any uses of REJECT which flex missed.
@@ -5897,7 +5897,6 @@ YY_RULE_SETUP
 									}
 	YY_BREAK
 case 14:
-/* rule 14 can match eol */
 YY_RULE_SETUP
 #line 260 "handlebars.l"
 {
@@ -5906,35 +5905,44 @@ YY_RULE_SETUP
 									}
 	YY_BREAK
 case 15:
+/* rule 15 can match eol */
 YY_RULE_SETUP
 #line 265 "handlebars.l"
+{
+										handlebars_yy_copy_lval();
+										return INVALID;
+									}
+	YY_BREAK
+case 16:
+YY_RULE_SETUP
+#line 270 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 61
 										handlebars_yy_copy_lval();
 										return OPEN_SEXPR;
 									}
 	YY_BREAK
-case 16:
+case 17:
 YY_RULE_SETUP
-#line 271 "handlebars.l"
+#line 276 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 62
 										handlebars_yy_copy_lval();
 										return CLOSE_SEXPR;
 									}
 	YY_BREAK
-case 17:
+case 18:
 YY_RULE_SETUP
-#line 277 "handlebars.l"
+#line 282 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 64
 										handlebars_yy_copy_lval();
 										return OPEN_RAW_BLOCK;
 									}
 	YY_BREAK
-case 18:
+case 19:
 YY_RULE_SETUP
-#line 283 "handlebars.l"
+#line 288 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 65
 										yy_pop_state(yyg);
@@ -5943,45 +5951,45 @@ YY_RULE_SETUP
                                   		return CLOSE_RAW_BLOCK;
                              		}
 	YY_BREAK
-case 19:
+case 20:
 YY_RULE_SETUP
-#line 291 "handlebars.l"
+#line 296 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 70
 										handlebars_yy_copy_lval();
 										return OPEN_PARTIAL;
                              		}
 	YY_BREAK
-case 20:
+case 21:
 YY_RULE_SETUP
-#line 297 "handlebars.l"
+#line 302 "handlebars.l"
 {
 										// v4.0.2 handlebars.l line 83
 										handlebars_yy_copy_lval();
 										return OPEN_PARTIAL_BLOCK;
                              		}
 	YY_BREAK
-case 21:
+case 22:
 YY_RULE_SETUP
-#line 303 "handlebars.l"
+#line 308 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 71
 										handlebars_yy_copy_lval();
 										return OPEN_BLOCK;
                              		}
 	YY_BREAK
-case 22:
+case 23:
 YY_RULE_SETUP
-#line 309 "handlebars.l"
+#line 314 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 72
 										handlebars_yy_copy_lval();
 										return OPEN_ENDBLOCK;
                              		}
 	YY_BREAK
-case 23:
+case 24:
 YY_RULE_SETUP
-#line 315 "handlebars.l"
+#line 320 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 73
 										yy_pop_state(yyg);
@@ -5989,10 +5997,10 @@ YY_RULE_SETUP
 										return INVERSE;
                              		}
 	YY_BREAK
-case 24:
-/* rule 24 can match eol */
+case 25:
+/* rule 25 can match eol */
 YY_RULE_SETUP
-#line 322 "handlebars.l"
+#line 327 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 74
 										yy_pop_state(yyg);
@@ -6000,45 +6008,45 @@ YY_RULE_SETUP
 										return INVERSE;
                              		}
 	YY_BREAK
-case 25:
+case 26:
 YY_RULE_SETUP
-#line 329 "handlebars.l"
+#line 334 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 75
 										handlebars_yy_copy_lval();
 										return OPEN_INVERSE;
                              		}
 	YY_BREAK
-case 26:
+case 27:
 YY_RULE_SETUP
-#line 335 "handlebars.l"
+#line 340 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 76
 										handlebars_yy_copy_lval();
 										return OPEN_INVERSE_CHAIN;
                              		}
 	YY_BREAK
-case 27:
+case 28:
 YY_RULE_SETUP
-#line 341 "handlebars.l"
+#line 346 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 77
 										handlebars_yy_copy_lval();
 										return OPEN_UNESCAPED;
                              		}
 	YY_BREAK
-case 28:
+case 29:
 YY_RULE_SETUP
-#line 347 "handlebars.l"
+#line 352 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 78
 										handlebars_yy_copy_lval();
 										return OPEN;
                              		}
 	YY_BREAK
-case 29:
+case 30:
 YY_RULE_SETUP
-#line 353 "handlebars.l"
+#line 358 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 79
 										handlebars_yy_unput_all;
@@ -6046,9 +6054,9 @@ YY_RULE_SETUP
   										yy_push_state(com, yyscanner);
 									}
 	YY_BREAK
-case 30:
+case 31:
 YY_RULE_SETUP
-#line 360 "handlebars.l"
+#line 365 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 80
 										handlebars_yy_unput_all;
@@ -6056,68 +6064,68 @@ YY_RULE_SETUP
   										yy_push_state(com1, yyscanner);
 									}
 	YY_BREAK
-case 31:
+case 32:
 YY_RULE_SETUP
-#line 367 "handlebars.l"
+#line 372 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 81
 										handlebars_yy_copy_lval();
 										return OPEN;
 									}
 	YY_BREAK
-case 32:
+case 33:
 YY_RULE_SETUP
-#line 373 "handlebars.l"
+#line 378 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 83
 										handlebars_yy_copy_lval();
 										return EQUALS;
 									}
 	YY_BREAK
-case 33:
+case 34:
 YY_RULE_SETUP
-#line 379 "handlebars.l"
+#line 384 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 84
 										handlebars_yy_copy_lval();
 										return ID;
 									}
 	YY_BREAK
-case 34:
-/* rule 34 can match eol */
+case 35:
+/* rule 35 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 1);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 385 "handlebars.l"
+#line 390 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 85
 										handlebars_yy_copy_lval();
 										return ID;
 									}
 	YY_BREAK
-case 35:
+case 36:
 YY_RULE_SETUP
-#line 391 "handlebars.l"
+#line 396 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 86
 										handlebars_yy_copy_lval();
 										return SEP;
 									}
 	YY_BREAK
-case 36:
-/* rule 36 can match eol */
+case 37:
+/* rule 37 can match eol */
 YY_RULE_SETUP
-#line 397 "handlebars.l"
+#line 402 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 87
 										// ignore whitespace
                                  	}
 	YY_BREAK
-case 37:
+case 38:
 YY_RULE_SETUP
-#line 402 "handlebars.l"
+#line 407 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 88
 										yy_pop_state(yyg);
@@ -6125,9 +6133,9 @@ YY_RULE_SETUP
 										return CLOSE_UNESCAPED;
 									}
 	YY_BREAK
-case 38:
+case 39:
 YY_RULE_SETUP
-#line 409 "handlebars.l"
+#line 414 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 89
 										yy_pop_state(yyg);
@@ -6135,10 +6143,10 @@ YY_RULE_SETUP
 										return CLOSE;
 									}
 	YY_BREAK
-case 39:
-/* rule 39 can match eol */
+case 40:
+/* rule 40 can match eol */
 YY_RULE_SETUP
-#line 416 "handlebars.l"
+#line 421 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 90
 										yytext[--yyleng] = 0;
@@ -6148,10 +6156,10 @@ YY_RULE_SETUP
                                    		return STRING;
                                  	}
 	YY_BREAK
-case 40:
-/* rule 40 can match eol */
+case 41:
+/* rule 41 can match eol */
 YY_RULE_SETUP
-#line 425 "handlebars.l"
+#line 430 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 91
 										yytext[--yyleng] = 0;
@@ -6161,122 +6169,122 @@ YY_RULE_SETUP
 										return SINGLE_STRING;
                                 	}
 	YY_BREAK
-case 41:
+case 42:
 YY_RULE_SETUP
-#line 434 "handlebars.l"
+#line 439 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 92
 										handlebars_yy_copy_lval();
 										return DATA;
 									}
 	YY_BREAK
-case 42:
-/* rule 42 can match eol */
+case 43:
+/* rule 43 can match eol */
 YY_RULE_SETUP
-#line 440 "handlebars.l"
+#line 445 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 108
 										handlebars_yy_copy_lval();
 										return OPEN_BLOCK_PARAMS;
 									}
 	YY_BREAK
-case 43:
+case 44:
 YY_RULE_SETUP
-#line 446 "handlebars.l"
+#line 451 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 109
 										handlebars_yy_copy_lval();
 										return CLOSE_BLOCK_PARAMS;
 									}
 	YY_BREAK
-case 44:
-/* rule 44 can match eol */
+case 45:
+/* rule 45 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 452 "handlebars.l"
+#line 457 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 93
 										handlebars_yy_copy_lval();
 										return BOOLEAN;
 									}
 	YY_BREAK
-case 45:
-/* rule 45 can match eol */
+case 46:
+/* rule 46 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 5);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 5;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 458 "handlebars.l"
+#line 463 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 94
 										handlebars_yy_copy_lval();
 										return BOOLEAN;
 									}
 	YY_BREAK
-case 46:
-/* rule 46 can match eol */
+case 47:
+/* rule 47 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 9);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 9;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 464 "handlebars.l"
+#line 469 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 105
 										handlebars_yy_copy_lval();
 										return UNDEFINED;
 									}
 	YY_BREAK
-case 47:
-/* rule 47 can match eol */
+case 48:
+/* rule 48 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 470 "handlebars.l"
+#line 475 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 106
 										handlebars_yy_copy_lval();
 										return NUL;
 									}
 	YY_BREAK
-case 48:
-/* rule 48 can match eol */
+case 49:
+/* rule 49 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 476 "handlebars.l"
+#line 481 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 95
 										handlebars_yy_copy_lval();
 										return NUMBER;
 									}
 	YY_BREAK
-case 49:
-/* rule 49 can match eol */
+case 50:
+/* rule 50 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 483 "handlebars.l"
+#line 488 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 97
 										handlebars_yy_copy_lval();
 										return ID;
 									}
 	YY_BREAK
-case 50:
-/* rule 50 can match eol */
+case 51:
+/* rule 51 can match eol */
 YY_RULE_SETUP
-#line 489 "handlebars.l"
+#line 494 "handlebars.l"
 {
 										// v4.0.3 handlebars.l line 123
 										// yytext = strip(1,2);
@@ -6287,9 +6295,9 @@ YY_RULE_SETUP
 										return ID;
 									}
 	YY_BREAK
-case 51:
+case 52:
 YY_RULE_SETUP
-#line 499 "handlebars.l"
+#line 504 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 100
 										handlebars_yy_copy_lval();
@@ -6302,18 +6310,18 @@ case YY_STATE_EOF(emu):
 case YY_STATE_EOF(com):
 case YY_STATE_EOF(com1):
 case YY_STATE_EOF(raw):
-#line 505 "handlebars.l"
+#line 510 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 102
 										return END;
 									}
 	YY_BREAK
-case 52:
+case 53:
 YY_RULE_SETUP
-#line 510 "handlebars.l"
+#line 515 "handlebars.l"
 ECHO;
 	YY_BREAK
-#line 6317 "handlebars.lex.c"
+#line 6325 "handlebars.lex.c"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -7521,6 +7529,6 @@ static int yy_flex_strlen (const char * s , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 510 "handlebars.l"
+#line 515 "handlebars.l"
 
 
diff --git a/src/handlebars.lex.h b/src/handlebars.lex.h
index 036f263..9877b80 100644
--- a/src/handlebars.lex.h
+++ b/src/handlebars.lex.h
@@ -733,7 +733,7 @@ extern int yylex \
 #undef yyTABLES_NAME
 #endif
 
-#line 510 "handlebars.l"
+#line 515 "handlebars.l"
 
 
 #line 740 "handlebars.lex.h"
-- 
2.43.0


From 3ab29589e4cbe3159a16f41586da9363b172b85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:19 +0000
Subject: [PATCH 098/102] fix: a path segment is an array element only if all
 of it is the index, and so in paths from data and block params

'[0x]', '[ 1]' and, after another index, '[]' were taken for an index, while
'@root.list.[0]' and a block parameter's element were not found at all.
---
 src/handlebars_vm.c | 56 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 12 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index b9c88be..a901914 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -960,6 +960,45 @@ done:
     HANDLEBARS_VALUE_UNDECL(tmp);
 }
 
+// Whether a segment of a path is the index of an array element, all of it
+static bool array_index(struct handlebars_string * segment, size_t * index)
+{
+    const char * val = hbs_str_val(segment);
+    size_t len = hbs_str_len(segment);
+    size_t i;
+
+    if( len == 0 || len > 9 || (val[0] == '0' && len > 1) ) {
+        return false;
+    }
+
+    for( i = 0, *index = 0; i < len; i++ ) {
+        if( val[i] < '0' || val[i] > '9' ) {
+            return false;
+        }
+        *index = *index * 10 + (size_t) (val[i] - '0');
+    }
+
+    return true;
+}
+
+// A member of a map or an element of an array, or nothing
+static struct handlebars_value * lookup_segment(
+    struct handlebars_value * value,
+    struct handlebars_string * segment,
+    struct handlebars_value * rv
+) {
+    size_t index;
+
+    switch( handlebars_value_get_type(value) ) {
+        case HANDLEBARS_VALUE_TYPE_MAP:
+            return handlebars_value_map_find(value, segment, rv);
+        case HANDLEBARS_VALUE_TYPE_ARRAY:
+            return array_index(segment, &index) ? handlebars_value_array_find(value, index, rv) : NULL;
+        default:
+            return NULL;
+    }
+}
+
 ACCEPT_FUNCTION(lookup_block_param)
 {
     long blockParam1 = -1;
@@ -995,7 +1034,7 @@ ACCEPT_FUNCTION(lookup_block_param)
         struct handlebars_value * tmp = v2;
         struct handlebars_value * tmp2;
         for( i = 1; i < arr_len; i++ ) {
-            tmp2 = handlebars_value_map_find(tmp, arr[i].string, rv);
+            tmp2 = lookup_segment(tmp, arr[i].string, rv);
             if( tmp2 ) {
                 handlebars_value_value(value, tmp2);
                 tmp = value;
@@ -1065,8 +1104,7 @@ ACCEPT_FUNCTION(lookup_data)
 
     for( i = 1 ; i < arr_len; i++ ) {
         struct handlebars_operand_string * part = arr + i;
-        if( handlebars_value_get_type(val) == HANDLEBARS_VALUE_TYPE_MAP &&
-                NULL != (tmp = handlebars_value_map_find(val, part->string, rv)) ) {
+        if( NULL != (tmp = lookup_segment(val, part->string, rv)) ) {
             handlebars_value_value(val, tmp);
         } else if( is_strict || require_terminal ) {
             goto done_and_err;
@@ -1134,7 +1172,6 @@ ACCEPT_FUNCTION(lookup_on_context)
     size_t arr_len = opcode->op1.data.array.count;
     struct handlebars_operand_string * arr = opcode->op1.data.array.array;
     struct handlebars_operand_string * arr_end = arr + arr_len;
-    long index = -1;
     bool is_strict = (vm->flags & handlebars_compiler_flag_strict) || (vm->flags & handlebars_compiler_flag_assume_objects);
     bool require_terminal = (vm->flags & handlebars_compiler_flag_strict) && opcode->op3.data.boolval;
 
@@ -1148,14 +1185,9 @@ ACCEPT_FUNCTION(lookup_on_context)
 
     do {
         bool is_last = arr == arr_end - 1;
-        if( handlebars_value_get_type(value) == HANDLEBARS_VALUE_TYPE_MAP ) {
-            value = handlebars_value_map_find(value, arr->string, rv2);
-        } else if( handlebars_value_get_type(value) == HANDLEBARS_VALUE_TYPE_ARRAY ) {
-            if (sscanf(hbs_str_val(arr->string), "%ld", &index)) {
-                value = handlebars_value_array_find(value, index, rv2);
-            } else {
-                value = NULL;
-            }
+        enum handlebars_value_type type = handlebars_value_get_type(value);
+        if( type == HANDLEBARS_VALUE_TYPE_MAP || type == HANDLEBARS_VALUE_TYPE_ARRAY ) {
+            value = lookup_segment(value, arr->string, rv2);
         } else if( vm->flags & handlebars_compiler_flag_assume_objects && is_last ) {
             goto done_and_err;
         } else {
-- 
2.43.0


From 5427761ba082f091103304a72d973ae421ca752b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:07 +0000
Subject: [PATCH 099/102] fix: a VM with mustache style lambdas does not crash
 on a lambda in a template compiled without them

---
 src/handlebars_vm.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index a901914..07343e7 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -710,9 +710,8 @@ ACCEPT_FUNCTION(invoke_ambiguous)
     options.name = opcode->op1.data.string.string;
     vm->last_helper = NULL;
 
-    if (vm->flags & handlebars_compiler_flag_mustache_style_lambdas && is_callable) {
-        assert(opcode->op3.type == handlebars_operand_type_string);
-
+    // The template may have been compiled without the flag, then there is no text for the lambda
+    if (vm->flags & handlebars_compiler_flag_mustache_style_lambdas && is_callable && opcode->op3.type == handlebars_operand_type_string) {
         // Construct a closure of the lambda
         const int closure_localc = 3;
         HANDLEBARS_VALUE_ARRAY_DECL(closure_localv, closure_localc);
-- 
2.43.0


From 1641aa07f2cab4c53f92dcb291913b6ea5e24f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:21 +0000
Subject: [PATCH 100/102] fix: changing a map while it is iterated neither
 overflows it nor changes it under another holder

---
 src/handlebars_map.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_map.c b/src/handlebars_map.c
index 0a4bb25..fd90dd5 100644
--- a/src/handlebars_map.c
+++ b/src/handlebars_map.c
@@ -409,6 +409,11 @@ static inline bool map_holds_itself(struct handlebars_map * map, struct handleba
 static struct handlebars_map * map_rehash_keep(struct handlebars_map * map, bool force, struct handlebars_map ** prev)
 {
     if (map->is_in_iteration) { // this go go really wrong
+#ifndef HANDLEBARS_NO_REFCOUNT
+        if (handlebars_rc_refcount(&map->rc) > 1) {
+            handlebars_throw(map->ctx, HANDLEBARS_ERROR, "Unable to change a shared hash table during iteration");
+        }
+#endif
         return map;
     }
 
@@ -446,7 +451,7 @@ struct handlebars_map * handlebars_map_add(struct handlebars_map * map, struct h
 
     // Add
     struct ht_find_result o = map_find_entry(map, key);
-    if (!o.empty_found) {
+    if (!o.empty_found || map->vec_offset >= map->vec_capacity) {
         // this should never happen - unless rehash locked due to iteration
         handlebars_throw(map->ctx, HANDLEBARS_ERROR, "Failed to add to hash table");
     }
@@ -510,8 +515,8 @@ struct handlebars_map * handlebars_map_update(struct handlebars_map * map, struc
     if (entry) {
         handlebars_value_value(&entry->value, value);
     } else {
-        if (!o.empty_found) {
-            // This should never happen
+        if (!o.empty_found || map->vec_offset >= map->vec_capacity) {
+            // This should never happen - unless rehash locked due to iteration
             handlebars_throw(map->ctx, HANDLEBARS_ERROR, "Failed to update to hash table");
         }
 
-- 
2.43.0


From 3a5434a7d2b3b12646ec30e876c65ba32b40ec22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:36 +0000
Subject: [PATCH 101/102] fix: bytes that are not UTF-8 are content for
 whitespace control, they do not make a tag stand alone

---
 src/handlebars_scanners.c  | 224 +++++++++++--------------------------
 src/handlebars_scanners.re |   4 +-
 2 files changed, 65 insertions(+), 163 deletions(-)

diff --git a/src/handlebars_scanners.c b/src/handlebars_scanners.c
index 29f2be8..165a97b 100644
--- a/src/handlebars_scanners.c
+++ b/src/handlebars_scanners.c
@@ -1,22 +1,20 @@
-/* Generated by re2c 1.3 */
+/* Generated by re2c 3.1 */
 #line 1 "handlebars_scanners.re"
 /**
- * Copyright (C) 2016 John Boehr
+ * Copyright (c) anno Domini nostri Jesu Christi MMXVI-MMXXIV John Boehr & contributors
  *
- * This file is part of handlebars.c.
+ * This library is free software; you can redistribute it and/or
+ * modify it under the terms of the GNU Lesser General Public
+ * License as published by the Free Software Foundation; either
+ * version 2.1 of the License, or (at your option) any later version.
  *
- * handlebars.c is free software: you can redistribute it and/or modify
- * it under the terms of the GNU Lesser General Public License as published
- * by the Free Software Foundation, either version 2.1 of the License, or
- * (at your option) any later version.
- *
- * handlebars.c is distributed in the hope that it will be useful,
+ * This library is distributed in the hope that it will be useful,
  * but WITHOUT ANY WARRANTY; without even the implied warranty of
- * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- * GNU Lesser General Public License for more details.
+ * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the GNU
+ * Lesser General Public License for more details.
  *
- * You should have received a copy of the GNU Lesser General Public License
- * along with handlebars.c.  If not, see <http://www.gnu.org/licenses/>.
+ * You should have received a copy of the GNU Lesser General Public
+ * License along with this library; if not, see <http://www.gnu.org/licenses/>.
  */
 
 #ifdef HAVE_CONFIG_H
@@ -33,103 +31,55 @@
 bool handlebars_scanner_next_whitespace(const char * s, bool def)
 {
     const YYCTYPE * YYCURSOR = (const unsigned char *) s;
-    
+
     assert(s != NULL);
-    
+
     for (;;) {
         
-#line 42 "handlebars_scanners.c"
+#line 40 "handlebars_scanners.c"
 {
     YYCTYPE yych;
     yych = *YYCURSOR;
-    if (yych <= ' ') {
-        if (yych <= '\n') {
-            if (yych <= 0x00) goto yy3;
-            if (yych <= 0x08) goto yy5;
-            if (yych <= '\t') goto yy7;
-            goto yy9;
+    if (yych <= '\v') {
+        if (yych <= 0x08) {
+            if (yych >= 0x01) goto yy1;
         } else {
-            if (yych <= '\f') {
-                if (yych <= '\v') goto yy7;
-                goto yy5;
-            } else {
-                if (yych <= '\r') goto yy7;
-                if (yych <= 0x1F) goto yy5;
-                goto yy7;
-            }
+            if (yych == '\n') goto yy3;
+            goto yy2;
         }
     } else {
-        if (yych <= 0xE0) {
-            if (yych <= 0x7F) goto yy5;
-            if (yych <= 0xC1) goto yy2;
-            if (yych <= 0xDF) goto yy11;
-            goto yy12;
+        if (yych <= '\r') {
+            if (yych <= '\f') goto yy1;
+            goto yy2;
         } else {
-            if (yych <= 0xF0) {
-                if (yych <= 0xEF) goto yy13;
-                goto yy14;
-            } else {
-                if (yych <= 0xF3) goto yy15;
-                if (yych <= 0xF4) goto yy16;
-            }
+            if (yych == ' ') goto yy2;
+            goto yy1;
         }
     }
-yy2:
-yy3:
     ++YYCURSOR;
-#line 42 "handlebars_scanners.re"
+#line 40 "handlebars_scanners.re"
     { break; }
-#line 83 "handlebars_scanners.c"
-yy5:
+#line 63 "handlebars_scanners.c"
+yy1:
     ++YYCURSOR;
-#line 45 "handlebars_scanners.re"
+#line 43 "handlebars_scanners.re"
     { return 0; }
-#line 88 "handlebars_scanners.c"
-yy7:
+#line 68 "handlebars_scanners.c"
+yy2:
     ++YYCURSOR;
-#line 43 "handlebars_scanners.re"
+#line 41 "handlebars_scanners.re"
     { continue; }
-#line 93 "handlebars_scanners.c"
-yy9:
+#line 73 "handlebars_scanners.c"
+yy3:
     ++YYCURSOR;
-#line 44 "handlebars_scanners.re"
+#line 42 "handlebars_scanners.re"
     { return 1; }
-#line 98 "handlebars_scanners.c"
-yy11:
-    yych = *++YYCURSOR;
-    if (yych <= 0x7F) goto yy2;
-    if (yych <= 0xBF) goto yy5;
-    goto yy2;
-yy12:
-    yych = *++YYCURSOR;
-    if (yych <= 0x9F) goto yy2;
-    if (yych <= 0xBF) goto yy11;
-    goto yy2;
-yy13:
-    yych = *++YYCURSOR;
-    if (yych <= 0x7F) goto yy2;
-    if (yych <= 0xBF) goto yy11;
-    goto yy2;
-yy14:
-    yych = *++YYCURSOR;
-    if (yych <= 0x8F) goto yy2;
-    if (yych <= 0xBF) goto yy13;
-    goto yy2;
-yy15:
-    yych = *++YYCURSOR;
-    if (yych <= 0x7F) goto yy2;
-    if (yych <= 0xBF) goto yy13;
-    goto yy2;
-yy16:
-    yych = *++YYCURSOR;
-    if (yych <= 0x7F) goto yy2;
-    if (yych <= 0x8F) goto yy13;
-    goto yy2;
+#line 78 "handlebars_scanners.c"
 }
-#line 46 "handlebars_scanners.re"
+#line 44 "handlebars_scanners.re"
 
     }
-    
+
     return def;
 }
 
@@ -137,102 +87,54 @@ bool handlebars_scanner_prev_whitespace(const char * s, bool def)
 {
     const YYCTYPE * YYCURSOR = (const unsigned char *) s;
     short match = def;
-    
+
     assert(s != NULL);
-    
+
     for (;;) {
         
-#line 146 "handlebars_scanners.c"
+#line 96 "handlebars_scanners.c"
 {
     YYCTYPE yych;
     yych = *YYCURSOR;
-    if (yych <= ' ') {
-        if (yych <= '\n') {
-            if (yych <= 0x00) goto yy20;
-            if (yych <= 0x08) goto yy22;
-            if (yych <= '\t') goto yy24;
-            goto yy26;
+    if (yych <= '\v') {
+        if (yych <= 0x08) {
+            if (yych >= 0x01) goto yy5;
         } else {
-            if (yych <= '\f') {
-                if (yych <= '\v') goto yy24;
-                goto yy22;
-            } else {
-                if (yych <= '\r') goto yy24;
-                if (yych <= 0x1F) goto yy22;
-                goto yy24;
-            }
+            if (yych == '\n') goto yy7;
+            goto yy6;
         }
     } else {
-        if (yych <= 0xE0) {
-            if (yych <= 0x7F) goto yy22;
-            if (yych <= 0xC1) goto yy19;
-            if (yych <= 0xDF) goto yy28;
-            goto yy29;
+        if (yych <= '\r') {
+            if (yych <= '\f') goto yy5;
+            goto yy6;
         } else {
-            if (yych <= 0xF0) {
-                if (yych <= 0xEF) goto yy30;
-                goto yy31;
-            } else {
-                if (yych <= 0xF3) goto yy32;
-                if (yych <= 0xF4) goto yy33;
-            }
+            if (yych == ' ') goto yy6;
+            goto yy5;
         }
     }
-yy19:
-yy20:
     ++YYCURSOR;
-#line 64 "handlebars_scanners.re"
+#line 62 "handlebars_scanners.re"
     { break; }
-#line 187 "handlebars_scanners.c"
-yy22:
+#line 119 "handlebars_scanners.c"
+yy5:
     ++YYCURSOR;
-#line 67 "handlebars_scanners.re"
+#line 65 "handlebars_scanners.re"
     { match = 0; continue; }
-#line 192 "handlebars_scanners.c"
-yy24:
+#line 124 "handlebars_scanners.c"
+yy6:
     ++YYCURSOR;
-#line 65 "handlebars_scanners.re"
+#line 63 "handlebars_scanners.re"
     { continue; }
-#line 197 "handlebars_scanners.c"
-yy26:
+#line 129 "handlebars_scanners.c"
+yy7:
     ++YYCURSOR;
-#line 66 "handlebars_scanners.re"
+#line 64 "handlebars_scanners.re"
     { match = 1; continue; }
-#line 202 "handlebars_scanners.c"
-yy28:
-    yych = *++YYCURSOR;
-    if (yych <= 0x7F) goto yy19;
-    if (yych <= 0xBF) goto yy22;
-    goto yy19;
-yy29:
-    yych = *++YYCURSOR;
-    if (yych <= 0x9F) goto yy19;
-    if (yych <= 0xBF) goto yy28;
-    goto yy19;
-yy30:
-    yych = *++YYCURSOR;
-    if (yych <= 0x7F) goto yy19;
-    if (yych <= 0xBF) goto yy28;
-    goto yy19;
-yy31:
-    yych = *++YYCURSOR;
-    if (yych <= 0x8F) goto yy19;
-    if (yych <= 0xBF) goto yy30;
-    goto yy19;
-yy32:
-    yych = *++YYCURSOR;
-    if (yych <= 0x7F) goto yy19;
-    if (yych <= 0xBF) goto yy30;
-    goto yy19;
-yy33:
-    yych = *++YYCURSOR;
-    if (yych <= 0x7F) goto yy19;
-    if (yych <= 0x8F) goto yy30;
-    goto yy19;
+#line 134 "handlebars_scanners.c"
 }
-#line 68 "handlebars_scanners.re"
+#line 66 "handlebars_scanners.re"
 
     }
-    
+
     return match;
 }
diff --git a/src/handlebars_scanners.re b/src/handlebars_scanners.re
index 137cbec..ffa0dbb 100644
--- a/src/handlebars_scanners.re
+++ b/src/handlebars_scanners.re
@@ -40,7 +40,7 @@ bool handlebars_scanner_next_whitespace(const char * s, bool def)
             "\x00"       { break; }
             [ \v\t\r]    { continue; }
             "\n"         { return 1; }
-            .            { return 0; }
+            *            { return 0; }
         */
     }
 
@@ -62,7 +62,7 @@ bool handlebars_scanner_prev_whitespace(const char * s, bool def)
             "\x00"       { break; }
             [ \v\t\r]    { continue; }
             "\n"         { match = 1; continue; }
-            .            { match = 0; continue; }
+            *            { match = 0; continue; }
         */
     }
 
-- 
2.43.0


From 67af2f4317d36afb9b29bd81217eb922b86a33a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:54:12 +0000
Subject: [PATCH 102/102] fix: a byte 0xff after a NUL made the lexer read
 beyond its transition table

---
 src/handlebars.l     |   9 +++
 src/handlebars.lex.c | 129 +++++++++++++++++++++++--------------------
 src/handlebars.lex.h |   2 +-
 3 files changed, 79 insertions(+), 61 deletions(-)

diff --git a/src/handlebars.l b/src/handlebars.l
index 84368a7..d48d59e 100644
--- a/src/handlebars.l
+++ b/src/handlebars.l
@@ -50,6 +50,15 @@
 #define YY_FATAL_ERROR(msg) handlebars_yy_fatal_error(msg, handlebars_yy_get_extra(yyscanner))
 #endif
 
+// The table that flex --fast makes ends one element too early for a 0xff that follows a NUL. Nothing matches 0xff but
+// not 0xfe.
+#undef YY_SC_TO_UI
+#define YY_SC_TO_UI(c) handlebars_yy_sc_to_ui((YY_CHAR) (c))
+static inline YY_CHAR handlebars_yy_sc_to_ui(YY_CHAR c)
+{
+    return c == 0xff ? 0xfe : c;
+}
+
 #undef YY_INPUT
 #define YY_INPUT(b,r,s) handlebars_yy_input(b, &r, s, handlebars_yy_get_extra(yyscanner))
 
diff --git a/src/handlebars.lex.c b/src/handlebars.lex.c
index dcfa4a5..2cd364d 100644
--- a/src/handlebars.lex.c
+++ b/src/handlebars.lex.c
@@ -5340,6 +5340,15 @@ static const flex_int32_t yy_rule_can_match_eol[54] =
 #define YY_FATAL_ERROR(msg) handlebars_yy_fatal_error(msg, handlebars_yy_get_extra(yyscanner))
 #endif
 
+// The table that flex --fast makes ends one element too early for a 0xff that follows a NUL. Nothing matches 0xff but
+// not 0xfe.
+#undef YY_SC_TO_UI
+#define YY_SC_TO_UI(c) handlebars_yy_sc_to_ui((YY_CHAR) (c))
+static inline YY_CHAR handlebars_yy_sc_to_ui(YY_CHAR c)
+{
+    return c == 0xff ? 0xfe : c;
+}
+
 #undef YY_INPUT
 #define YY_INPUT(b,r,s) handlebars_yy_input(b, &r, s, handlebars_yy_get_extra(yyscanner))
 
@@ -5399,9 +5408,9 @@ static void handlebars_yy_locate(struct handlebars_parser * parser, struct handl
         }
     }
 }
-#line 5403 "handlebars.lex.c"
+#line 5412 "handlebars.lex.c"
 
-#line 5405 "handlebars.lex.c"
+#line 5414 "handlebars.lex.c"
 
 #define INITIAL 0
 #define mu 1
@@ -5680,11 +5689,11 @@ YY_DECL
 		}
 
 	{
-#line 159 "handlebars.l"
+#line 168 "handlebars.l"
 
 
 
-#line 5688 "handlebars.lex.c"
+#line 5697 "handlebars.lex.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -5751,7 +5760,7 @@ do_action:	/* This label is used only to access EOF actions. */
 case 1:
 /* rule 1 can match eol */
 YY_RULE_SETUP
-#line 162 "handlebars.l"
+#line 171 "handlebars.l"
 {
 										int n = yytext[yyleng - 3] == '{' ? 3 : 2;
 										handlebars_yy_unput_n(n);
@@ -5764,7 +5773,7 @@ YY_RULE_SETUP
 case 2:
 /* rule 2 can match eol */
 YY_RULE_SETUP
-#line 171 "handlebars.l"
+#line 180 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 31
 										handlebars_yy_copy_lval();
@@ -5773,7 +5782,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 177 "handlebars.l"
+#line 186 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 32
 										handlebars_yy_unput_n(2);
@@ -5788,7 +5797,7 @@ YY_RULE_SETUP
 case 4:
 /* rule 4 can match eol */
 YY_RULE_SETUP
-#line 188 "handlebars.l"
+#line 197 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 35
 										yy_push_state(emu, yyscanner);
@@ -5799,7 +5808,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 196 "handlebars.l"
+#line 205 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 38
 										handlebars_yy_unput_all;
@@ -5808,7 +5817,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 202 "handlebars.l"
+#line 211 "handlebars.l"
 {
 										handlebars_yy_copy_lval();
 										return CONTENT;
@@ -5816,7 +5825,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 207 "handlebars.l"
+#line 216 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 47
 										handlebars_yy_unput_all;
@@ -5830,7 +5839,7 @@ YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 213 "handlebars.l"
+#line 222 "handlebars.l"
 {
                                   		yy_push_state(raw, yyscanner);
 										handlebars_yy_copy_lval();
@@ -5839,7 +5848,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 219 "handlebars.l"
+#line 228 "handlebars.l"
 {
 										// v4.0.2 handlebars.l line 54
 
@@ -5857,7 +5866,7 @@ YY_RULE_SETUP
 case 10:
 /* rule 10 can match eol */
 YY_RULE_SETUP
-#line 233 "handlebars.l"
+#line 242 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 57
 										handlebars_yy_copy_lval();
@@ -5866,7 +5875,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 239 "handlebars.l"
+#line 248 "handlebars.l"
 {
 										handlebars_yy_copy_lval();
 										return CONTENT;
@@ -5875,7 +5884,7 @@ YY_RULE_SETUP
 case 12:
 /* rule 12 can match eol */
 YY_RULE_SETUP
-#line 244 "handlebars.l"
+#line 253 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 59
   										yy_pop_state(yyg);
@@ -5888,7 +5897,7 @@ YY_RULE_SETUP
 case 13:
 /* rule 13 can match eol */
 YY_RULE_SETUP
-#line 253 "handlebars.l"
+#line 262 "handlebars.l"
 {
   										//yytext[yyleng -= 2] = 0;
   										yy_pop_state(yyg);
@@ -5898,7 +5907,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 260 "handlebars.l"
+#line 269 "handlebars.l"
 {
 										handlebars_yy_copy_lval();
 										return INVALID;
@@ -5907,7 +5916,7 @@ YY_RULE_SETUP
 case 15:
 /* rule 15 can match eol */
 YY_RULE_SETUP
-#line 265 "handlebars.l"
+#line 274 "handlebars.l"
 {
 										handlebars_yy_copy_lval();
 										return INVALID;
@@ -5915,7 +5924,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 270 "handlebars.l"
+#line 279 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 61
 										handlebars_yy_copy_lval();
@@ -5924,7 +5933,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 276 "handlebars.l"
+#line 285 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 62
 										handlebars_yy_copy_lval();
@@ -5933,7 +5942,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 282 "handlebars.l"
+#line 291 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 64
 										handlebars_yy_copy_lval();
@@ -5942,7 +5951,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
-#line 288 "handlebars.l"
+#line 297 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 65
 										yy_pop_state(yyg);
@@ -5953,7 +5962,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 296 "handlebars.l"
+#line 305 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 70
 										handlebars_yy_copy_lval();
@@ -5962,7 +5971,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 302 "handlebars.l"
+#line 311 "handlebars.l"
 {
 										// v4.0.2 handlebars.l line 83
 										handlebars_yy_copy_lval();
@@ -5971,7 +5980,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 308 "handlebars.l"
+#line 317 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 71
 										handlebars_yy_copy_lval();
@@ -5980,7 +5989,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
-#line 314 "handlebars.l"
+#line 323 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 72
 										handlebars_yy_copy_lval();
@@ -5989,7 +5998,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 24:
 YY_RULE_SETUP
-#line 320 "handlebars.l"
+#line 329 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 73
 										yy_pop_state(yyg);
@@ -6000,7 +6009,7 @@ YY_RULE_SETUP
 case 25:
 /* rule 25 can match eol */
 YY_RULE_SETUP
-#line 327 "handlebars.l"
+#line 336 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 74
 										yy_pop_state(yyg);
@@ -6010,7 +6019,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 26:
 YY_RULE_SETUP
-#line 334 "handlebars.l"
+#line 343 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 75
 										handlebars_yy_copy_lval();
@@ -6019,7 +6028,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
-#line 340 "handlebars.l"
+#line 349 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 76
 										handlebars_yy_copy_lval();
@@ -6028,7 +6037,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 28:
 YY_RULE_SETUP
-#line 346 "handlebars.l"
+#line 355 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 77
 										handlebars_yy_copy_lval();
@@ -6037,7 +6046,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 29:
 YY_RULE_SETUP
-#line 352 "handlebars.l"
+#line 361 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 78
 										handlebars_yy_copy_lval();
@@ -6046,7 +6055,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
-#line 358 "handlebars.l"
+#line 367 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 79
 										handlebars_yy_unput_all;
@@ -6056,7 +6065,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 31:
 YY_RULE_SETUP
-#line 365 "handlebars.l"
+#line 374 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 80
 										handlebars_yy_unput_all;
@@ -6066,7 +6075,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 32:
 YY_RULE_SETUP
-#line 372 "handlebars.l"
+#line 381 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 81
 										handlebars_yy_copy_lval();
@@ -6075,7 +6084,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 33:
 YY_RULE_SETUP
-#line 378 "handlebars.l"
+#line 387 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 83
 										handlebars_yy_copy_lval();
@@ -6084,7 +6093,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 34:
 YY_RULE_SETUP
-#line 384 "handlebars.l"
+#line 393 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 84
 										handlebars_yy_copy_lval();
@@ -6098,7 +6107,7 @@ YY_LINENO_REWIND_TO(yy_bp + 1);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 390 "handlebars.l"
+#line 399 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 85
 										handlebars_yy_copy_lval();
@@ -6107,7 +6116,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 36:
 YY_RULE_SETUP
-#line 396 "handlebars.l"
+#line 405 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 86
 										handlebars_yy_copy_lval();
@@ -6117,7 +6126,7 @@ YY_RULE_SETUP
 case 37:
 /* rule 37 can match eol */
 YY_RULE_SETUP
-#line 402 "handlebars.l"
+#line 411 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 87
 										// ignore whitespace
@@ -6125,7 +6134,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-#line 407 "handlebars.l"
+#line 416 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 88
 										yy_pop_state(yyg);
@@ -6135,7 +6144,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-#line 414 "handlebars.l"
+#line 423 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 89
 										yy_pop_state(yyg);
@@ -6146,7 +6155,7 @@ YY_RULE_SETUP
 case 40:
 /* rule 40 can match eol */
 YY_RULE_SETUP
-#line 421 "handlebars.l"
+#line 430 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 90
 										yytext[--yyleng] = 0;
@@ -6159,7 +6168,7 @@ YY_RULE_SETUP
 case 41:
 /* rule 41 can match eol */
 YY_RULE_SETUP
-#line 430 "handlebars.l"
+#line 439 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 91
 										yytext[--yyleng] = 0;
@@ -6171,7 +6180,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-#line 439 "handlebars.l"
+#line 448 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 92
 										handlebars_yy_copy_lval();
@@ -6181,7 +6190,7 @@ YY_RULE_SETUP
 case 43:
 /* rule 43 can match eol */
 YY_RULE_SETUP
-#line 445 "handlebars.l"
+#line 454 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 108
 										handlebars_yy_copy_lval();
@@ -6190,7 +6199,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 44:
 YY_RULE_SETUP
-#line 451 "handlebars.l"
+#line 460 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 109
 										handlebars_yy_copy_lval();
@@ -6204,7 +6213,7 @@ YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 457 "handlebars.l"
+#line 466 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 93
 										handlebars_yy_copy_lval();
@@ -6218,7 +6227,7 @@ YY_LINENO_REWIND_TO(yy_bp + 5);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 5;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 463 "handlebars.l"
+#line 472 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 94
 										handlebars_yy_copy_lval();
@@ -6232,7 +6241,7 @@ YY_LINENO_REWIND_TO(yy_bp + 9);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 9;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 469 "handlebars.l"
+#line 478 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 105
 										handlebars_yy_copy_lval();
@@ -6246,7 +6255,7 @@ YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 475 "handlebars.l"
+#line 484 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 106
 										handlebars_yy_copy_lval();
@@ -6260,7 +6269,7 @@ YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 481 "handlebars.l"
+#line 490 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 95
 										handlebars_yy_copy_lval();
@@ -6274,7 +6283,7 @@ YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 488 "handlebars.l"
+#line 497 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 97
 										handlebars_yy_copy_lval();
@@ -6284,7 +6293,7 @@ YY_RULE_SETUP
 case 51:
 /* rule 51 can match eol */
 YY_RULE_SETUP
-#line 494 "handlebars.l"
+#line 503 "handlebars.l"
 {
 										// v4.0.3 handlebars.l line 123
 										// yytext = strip(1,2);
@@ -6297,7 +6306,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 52:
 YY_RULE_SETUP
-#line 504 "handlebars.l"
+#line 513 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 100
 										handlebars_yy_copy_lval();
@@ -6310,7 +6319,7 @@ case YY_STATE_EOF(emu):
 case YY_STATE_EOF(com):
 case YY_STATE_EOF(com1):
 case YY_STATE_EOF(raw):
-#line 510 "handlebars.l"
+#line 519 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 102
 										return END;
@@ -6318,10 +6327,10 @@ case YY_STATE_EOF(raw):
 	YY_BREAK
 case 53:
 YY_RULE_SETUP
-#line 515 "handlebars.l"
+#line 524 "handlebars.l"
 ECHO;
 	YY_BREAK
-#line 6325 "handlebars.lex.c"
+#line 6334 "handlebars.lex.c"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -7529,6 +7538,6 @@ static int yy_flex_strlen (const char * s , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 515 "handlebars.l"
+#line 524 "handlebars.l"
 
 
diff --git a/src/handlebars.lex.h b/src/handlebars.lex.h
index 9877b80..f397ed1 100644
--- a/src/handlebars.lex.h
+++ b/src/handlebars.lex.h
@@ -733,7 +733,7 @@ extern int yylex \
 #undef yyTABLES_NAME
 #endif
 
-#line 515 "handlebars.l"
+#line 524 "handlebars.l"
 
 
 #line 740 "handlebars.lex.h"
-- 
2.43.0


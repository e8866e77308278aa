From 1e28446ae9ed0fdd965f122627ffae99ab5d5dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 01/62] fix: moving a sequence, map or string must transfer the
 content instead of copying it

---
 include/xtypes/MapType.hpp      | 2 +-
 include/xtypes/SequenceType.hpp | 2 +-
 include/xtypes/StringType.hpp   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xtypes/MapType.hpp b/include/xtypes/MapType.hpp
index d6bf866..59dec95 100644
--- a/include/xtypes/MapType.hpp
+++ b/include/xtypes/MapType.hpp
@@ -127,7 +127,7 @@ public:
         {
             destroy_instance(target);
         }
-        new (target) MapInstance(std::move(*reinterpret_cast<const MapInstance*>(source)));
+        new (target) MapInstance(std::move(*reinterpret_cast<MapInstance*>(source)));
     }
 
     virtual void destroy_instance(
diff --git a/include/xtypes/SequenceType.hpp b/include/xtypes/SequenceType.hpp
index 84500a0..3be6830 100644
--- a/include/xtypes/SequenceType.hpp
+++ b/include/xtypes/SequenceType.hpp
@@ -121,7 +121,7 @@ public:
         {
             destroy_instance(target);
         }
-        new (target) SequenceInstance(std::move(*reinterpret_cast<const SequenceInstance*>(source)));
+        new (target) SequenceInstance(std::move(*reinterpret_cast<SequenceInstance*>(source)));
     }
 
     virtual void destroy_instance(
diff --git a/include/xtypes/StringType.hpp b/include/xtypes/StringType.hpp
index 382949b..c98b5cb 100644
--- a/include/xtypes/StringType.hpp
+++ b/include/xtypes/StringType.hpp
@@ -103,7 +103,7 @@ public:
             uint8_t* source,
             bool) const override
     {
-        new (target) std::basic_string<CHAR_T>(std::move(*reinterpret_cast<const std::basic_string<CHAR_T>*>(source)));
+        new (target) std::basic_string<CHAR_T>(std::move(*reinterpret_cast<std::basic_string<CHAR_T>*>(source)));
     }
 
     virtual void destroy_instance(
-- 
2.43.0


From 87ceb783a568113d9098e276c3c23be258e37ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 02/62] fix: moving into an already constructed string must
 release the previous content

---
 include/xtypes/StringType.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/StringType.hpp b/include/xtypes/StringType.hpp
index c98b5cb..dedfa0f 100644
--- a/include/xtypes/StringType.hpp
+++ b/include/xtypes/StringType.hpp
@@ -101,8 +101,12 @@ public:
     virtual void move_instance(
             uint8_t* target,
             uint8_t* source,
-            bool) const override
+            bool initialized) const override
     {
+        if (initialized)
+        {
+            destroy_instance(target);
+        }
         new (target) std::basic_string<CHAR_T>(std::move(*reinterpret_cast<std::basic_string<CHAR_T>*>(source)));
     }
 
-- 
2.43.0


From 3e0a5a9c2ad24ee82fa5de22b09d1862ebe1310c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 03/62] fix: pushing into a sequence must not leak the
 constructed slot nor use a freed element

---
 include/xtypes/SequenceInstance.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index 48779ec..dbb95d1 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -152,10 +152,23 @@ public:
     {
         if (memory_ == nullptr || size_ == capacity_)
         {
+            // The pushed instance can be an element of this sequence, it must be located again after the reallocation.
+            std::less<const uint8_t*> before;
+            bool is_element = memory_ != nullptr
+                && !before(instance, memory_)
+                && before(instance, memory_ + size_ * block_size_);
+            size_t element_offset = is_element ? instance - memory_ : 0;
+
             realloc((capacity_ > 0) ? capacity_ * 2 : 1, bounds);
+
+            if (is_element)
+            {
+                instance = memory_ + element_offset;
+            }
         }
 
         uint8_t* place = memory_ + size_ * block_size_;
+        content_->destroy_instance(place); // All slots are constructed when the memory is reserved
         content_->copy_instance(place, instance);
 
         size_++;
-- 
2.43.0


From 5d60fccb0009f90416bf9a2eee6a5209856fa8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 04/62] fix: resizing a sequence must not construct its
 elements twice

---
 include/xtypes/SequenceInstance.hpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index dbb95d1..47966bc 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -188,13 +188,7 @@ public:
             return;
         }
 
-        realloc(new_size, bounds);
-
-        for (size_t i = size_; i < new_size; i++)
-        {
-            uint8_t* place = memory_ + i * block_size_;
-            content_->construct_instance(place);
-        }
+        realloc(new_size, bounds); // All slots are constructed when the memory is reserved
 
         size_ = new_size;
     }
-- 
2.43.0


From 2822e565f4ba8e57793026f3a6b56468c8192b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 05/62] fix: copying a sequence must release the constructed
 slots and convert the primitive kinds

---
 include/xtypes/SequenceInstance.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index 47966bc..d5780a8 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -284,10 +284,12 @@ private:
             realloc(min_size, bounds);
         }
 
-        if (content_->is_constructed_type() || block_size_ != other_block_size)
+        if (content_->is_constructed_type() || content_->kind() != other.content_->kind()
+                || block_size_ != other_block_size)
         {
             for (uint32_t i = 0; i < min_size; i++)
             {
+                content_->destroy_instance(memory_ + i * block_size_); // The slots were already constructed
                 content_->copy_instance_from_type(
                     memory_ + i * block_size_,
                     other.memory_ + i * other_block_size,
-- 
2.43.0


From 3ab0eedeb6d003960012bdee6c4919cc9196d464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 06/62] fix: inserting into a map must not leak the constructed
 slot

---
 include/xtypes/MapInstance.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index 305c0c0..0523bc4 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -146,6 +146,7 @@ public:
         }
 
         uint8_t* place = create_place(instance);
+        content_->destroy_instance(place); // All slots are constructed when the memory is reserved
         content_->first().copy_instance(place, instance);
         content_->second().construct_instance(place + content_->first().memory_size());
 
-- 
2.43.0


From c672c439262d59660131be1efcb415e09357a5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 07/62] fix: copying a map must release the constructed slots

---
 include/xtypes/MapInstance.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index 0523bc4..48853a1 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -288,6 +288,7 @@ private:
         {
             for (uint32_t i = 0; i < min_size; i++)
             {
+                content_->destroy_instance(memory_ + i * block_size_); // The slots were already constructed
                 content_->copy_instance_from_type(
                     memory_ + i * block_size_,
                     other.memory_ + i * other.content_->memory_size(),
-- 
2.43.0


From be0fd72f908cf155a6e72acdd7ba656845c3b75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 08/62] fix: a map can only be copied from a map with the same
 content layout

---
 include/xtypes/MapType.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/MapType.hpp b/include/xtypes/MapType.hpp
index 59dec95..78987f0 100644
--- a/include/xtypes/MapType.hpp
+++ b/include/xtypes/MapType.hpp
@@ -111,7 +111,8 @@ public:
 
         xtypes_assert(
             other.kind() == TypeKind::MAP_TYPE
-            && content_type().name() == static_cast<const MapType&>(other).content_type().name(),
+            && content_type().name() == static_cast<const MapType&>(other).content_type().name()
+            && content_type().is_compatible(static_cast<const MapType&>(other).content_type()) == TypeConsistency::EQUALS,
             "Cannot copy data from different types: From '" << other.name() << "' to '" << name() << "'.");
 
         (void) other;
-- 
2.43.0


From 15e516631a28687a69700214928f78691c81d341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 09/62] fix: moving into an already constructed union must
 release the previous active member

---
 include/xtypes/UnionType.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 65ba758..203f252 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -319,13 +319,17 @@ public:
             uint8_t* source,
             bool initialized) const override
     {
-        disc()->type().move_instance(target, source, initialized);
+        if (initialized)
+        {
+            destroy_instance(target);
+        }
+        disc()->type().move_instance(target, source, false);
         int64_t label = current_label(disc()->type(), target);
         if (0 < labels_.count(label))
         {
             Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
             member->type().move_instance(target + member->offset(),
-                    source + member->offset(), initialized);
+                    source + member->offset(), false);
         }
     }
 
-- 
2.43.0


From dc4268d32ed441d0c90e1b8916b1d0a3f42ba65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 10/62] fix: a union without active member can be copied

---
 include/xtypes/UnionType.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 203f252..35edeff 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -275,9 +275,11 @@ public:
     {
         disc()->type().copy_instance(target, source);
         int64_t label = current_label(disc()->type(), source);
-        xtypes_assert(labels_.count(label) != 0, "Stored label in source is invalid");
-        Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
-        member->type().copy_instance(target + member->offset(), source + member->offset());
+        if (0 < labels_.count(label))
+        {
+            Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
+            member->type().copy_instance(target + member->offset(), source + member->offset());
+        }
     }
 
     virtual void copy_instance_from_type(
-- 
2.43.0


From ca5e5cfc6d83981f0963a56d5439178ad8b9816f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 11/62] fix: copying a union from a compatible one must read
 the source with its own layout

---
 include/xtypes/UnionType.hpp | 43 +++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 35edeff..22f3a7b 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -285,21 +285,25 @@ public:
     virtual void copy_instance_from_type(
             uint8_t* target,
             const uint8_t* source,
-            const DynamicType& other) const override
+            const DynamicType& arg_other) const override
     {
-        if (other.kind() == TypeKind::ALIAS_TYPE)
-        {
-            [[maybe_unused]] const AliasType& alias = static_cast<const AliasType&>(other);
+        const DynamicType& other = (arg_other.kind() == TypeKind::ALIAS_TYPE)
+                ? static_cast<const AliasType&>(arg_other).rget()
+                : arg_other;
 
-            xtypes_assert(alias.rget().kind() == TypeKind::UNION_TYPE,
-                    "Cannot copy data from different types: From '" << alias.rget().name() << "' to '" << name() <<
-                    "'.");
-        }
-        else
+        if (other.kind() == TypeKind::STRUCTURE_TYPE)
         {
-            xtypes_assert(other.kind() == TypeKind::UNION_TYPE,
-                    "Cannot copy data from different types: From '" << other.name() << "' to '" << name() << "'.");
+            // Resolve one-member struct compatibility
+            const AggregationType& struct_type = static_cast<const AggregationType&>(other);
+            if (struct_type.members().size() == 1)
+            {
+                copy_instance_from_type(target, source, struct_type.members().at(0).type());
+                return;
+            }
         }
+
+        xtypes_assert(other.kind() == TypeKind::UNION_TYPE,
+                "Cannot copy data from different types: From '" << other.name() << "' to '" << name() << "'.");
         const UnionType& other_union = static_cast<const UnionType&>(other);
 
         Member* disc_ = disc();
@@ -309,10 +313,19 @@ public:
         if (0 < labels_.count(label))
         {
             Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
-            member->type().copy_instance_from_type(
-                target + member->offset(),
-                source + member->offset(),
-                member->type());
+            int64_t other_label = current_label(other_union.disc()->type(), source);
+            if (0 < other_union.labels_.count(other_label))
+            {
+                const Member& other_member = other_union.member(other_union.labels_.at(other_label));
+                member->type().copy_instance_from_type(
+                    target + member->offset(),
+                    source + other_member.offset(),
+                    other_member.type());
+            }
+            else
+            {
+                member->type().construct_instance(target + member->offset());
+            }
         }
     }
 
-- 
2.43.0


From 1c709b5258b2cd396b2f77d1ce351192c7572487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 12/62] fix: the hash of a union must take into account its
 active member

---
 include/xtypes/UnionType.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 22f3a7b..6964f6a 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -470,9 +470,10 @@ public:
             const uint8_t* instance) const override
     {
         uint64_t h = disc()->type().hash(instance);
-        if (0 < labels_.count(h))
+        int64_t label = current_label(disc()->type(), instance);
+        if (0 < labels_.count(label))
         {
-            Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(h)));
+            Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
             Instanceable::hash_combine(h, member->type().hash(instance + member->offset()));
         }
         return h;
-- 
2.43.0


From fd35bb0dcf95e56362cd1e9587337b789d4572a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 13/62] fix: reading a union member must not modify its
 discriminator

---
 include/xtypes/DynamicData.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index de5d7fe..a68ae43 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -685,7 +685,10 @@ protected:
                 xtypes_assert(member_name == union_type.get_current_selection(instance_).name(),
                         "Cannot retrieve a non-selected case member.");
             }
-            union_type.select_case(instance_, member_name);
+            else
+            {
+                union_type.select_case(instance_, member_name);
+            }
         }
 
         const Member& member = aggregation.member(member_name);
-- 
2.43.0


From 0fae6bdfe1ee9a6d9983d387998c1611fe55ef71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 14/62] fix: selecting a union discriminator must construct the
 member when none was active

---
 include/xtypes/UnionType.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 6964f6a..9e703fc 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -891,6 +891,12 @@ protected:
             return false;
         }
 
+        if (0 == labels_.count(current_value) && 0 < labels_.count(value))
+        {
+            const Member& selected = member(labels_.at(value));
+            selected.type().construct_instance(instance + selected.offset());
+        }
+
         current_label(instance, value);
         return true;
     }
-- 
2.43.0


From 250ae44789d2828feaa33577401018e273706a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 15/62] fix: a direct union discriminator value must be
 compared with the labels by its stored representation

---
 include/xtypes/UnionType.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 9e703fc..072b477 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -874,6 +874,7 @@ protected:
             uint8_t* instance,
             int64_t value) const
     {
+        value = shrink_label(value, disc()->type().memory_size());
         if (labels_.count(value) == 0 &&
                 default_ == invalid_value_)
         {
-- 
2.43.0


From 1ec60d939b40e520783a79905c040dfbedb1a884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 16/62] fix: a second default case member must be rejected
 before modifying the union

---
 include/xtypes/UnionType.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 072b477..ab24fcc 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -96,6 +96,7 @@ public:
         static_assert (std::is_integral<T>::value, "Only 'integral' types are allowed.");
         xtypes_assert(is_default || !labels.empty(), "Cannot add a non default case member without labels.");
         xtypes_assert(UNION_DISCRIMINATOR != member.name(), "Case member name 'discriminator' is reserved.");
+        xtypes_assert(!is_default || default_ == invalid_value_, "Cannot set more than one case member as default.");
         // Check labels
         for (T label : labels)
         {
-- 
2.43.0


From 55bb7f383182e458d6a86131f575d2414dbdb3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 17/62] fix: the label that marks a union without active member
 is reserved

---
 include/xtypes/UnionType.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index ab24fcc..1025efc 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -526,6 +526,7 @@ protected:
          [[maybe_unused]] int64_t label)
     {
         xtypes_assert(label != default_value_, "Label '" << label << "' is reserved.");
+        xtypes_assert(label != invalid_value_, "Label '" << label << "' is reserved.");
         DynamicType* type = &const_cast<DynamicType&>(disc()->type());
 
         if (type->kind() == TypeKind::ALIAS_TYPE)
-- 
2.43.0


From b69b90c7bd3c90e551a785d9cc4897727cb5182e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 18/62] fix: copying a pair from a compatible one must use the
 source layout to locate its second value

---
 include/xtypes/PairType.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/PairType.hpp b/include/xtypes/PairType.hpp
index ba59729..ab5d707 100644
--- a/include/xtypes/PairType.hpp
+++ b/include/xtypes/PairType.hpp
@@ -126,7 +126,7 @@ public:
 
         const PairType& pair = static_cast<const PairType&>(other);
         first_->copy_instance_from_type(target, source, pair.first());
-        second_->copy_instance_from_type(target + first_->memory_size(), source + first_->memory_size(), pair.second());
+        second_->copy_instance_from_type(target + first_->memory_size(), source + pair.first().memory_size(), pair.second());
     }
 
     void move_instance(
-- 
2.43.0


From d146e9d73dfdf05d51ed09d7a92bbc15cfb65ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 19/62] fix: copying an array from a shorter one must construct
 the remaining elements and convert the primitive kinds

---
 include/xtypes/ArrayType.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/ArrayType.hpp b/include/xtypes/ArrayType.hpp
index 62efd0c..c932b9c 100644
--- a/include/xtypes/ArrayType.hpp
+++ b/include/xtypes/ArrayType.hpp
@@ -160,7 +160,8 @@ public:
         size_t other_block_size = other_array.content_type().memory_size();
         size_t min_dimension = std::min(dimension_, other_array.dimension_);
 
-        if (content_type().is_constructed_type() || block_size != other_block_size)
+        if (content_type().is_constructed_type() || content_type().kind() != other_array.content_type().kind()
+                || block_size != other_block_size)
         {
             for (uint32_t i = 0; i < min_dimension; i++)
             {
@@ -174,6 +175,11 @@ public:
         {
             std::memcpy(target, source, min_dimension * block_size);
         }
+
+        for (size_t i = min_dimension; i < dimension_; i++)
+        {
+            content_type().construct_instance(target + i * block_size);
+        }
     }
 
     virtual void move_instance(
-- 
2.43.0


From 86e6c2f271144bb5bb16e6568f2ff95b71db8765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 20/62] fix: copying a struct from one with less members must
 not iterate past its last member

---
 include/xtypes/StructType.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/StructType.hpp b/include/xtypes/StructType.hpp
index 6ee3ca1..599b74e 100644
--- a/include/xtypes/StructType.hpp
+++ b/include/xtypes/StructType.hpp
@@ -142,12 +142,12 @@ public:
                     target + member.offset(),
                     source + other_member->offset(),
                     other_member->type());
+                other_member++;
             }
             else
             {
                 member.type().construct_instance(target + member.offset());
             }
-            other_member++;
         }
     }
 
-- 
2.43.0


From a132af47148a281e584a4e0871c6134e42aa5e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 21/62] fix: an enumeration must be read with its own width
 when converted to a primitive

---
 include/xtypes/PrimitiveType.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/PrimitiveType.hpp b/include/xtypes/PrimitiveType.hpp
index 2e32a73..d94b0f8 100644
--- a/include/xtypes/PrimitiveType.hpp
+++ b/include/xtypes/PrimitiveType.hpp
@@ -170,8 +170,19 @@ protected:
             case TypeKind::UINT_16_TYPE:
                 *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint16_t*>(source);
                 break;
-            case TypeKind::UINT_32_TYPE:
             case TypeKind::ENUMERATION_TYPE:
+                if (other.memory_size() == sizeof(uint8_t))
+                {
+                    *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint8_t*>(source);
+                    break;
+                }
+                else if (other.memory_size() == sizeof(uint16_t))
+                {
+                    *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint16_t*>(source);
+                    break;
+                }
+                [[fallthrough]];
+            case TypeKind::UINT_32_TYPE:
                 *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint32_t*>(source);
                 break;
             case TypeKind::UINT_64_TYPE:
-- 
2.43.0


From f5e05349b08e0ccea7a37bd90a63fb605b5fdc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 22/62] fix: compatibility between a primitive and an
 enumerated type must not depend on the side asked

---
 include/xtypes/PrimitiveType.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/xtypes/PrimitiveType.hpp b/include/xtypes/PrimitiveType.hpp
index d94b0f8..d85b5de 100644
--- a/include/xtypes/PrimitiveType.hpp
+++ b/include/xtypes/PrimitiveType.hpp
@@ -249,6 +249,11 @@ protected:
             return other.is_compatible(*this);
         }
 
+        if (other.is_enumerated_type())
+        {
+            return other.is_compatible(*this);
+        }
+
         if (!other.is_primitive_type())
         {
             return TypeConsistency::NONE;
-- 
2.43.0


From 0a86c23d17e5ada77b6864337f65886bde2c7878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 23/62] fix: the hash of a sequence must depend on its elements

---
 include/xtypes/SequenceType.hpp | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/include/xtypes/SequenceType.hpp b/include/xtypes/SequenceType.hpp
index 3be6830..a1a4836 100644
--- a/include/xtypes/SequenceType.hpp
+++ b/include/xtypes/SequenceType.hpp
@@ -234,24 +234,13 @@ public:
     virtual uint64_t hash(
             const uint8_t* c_instance) const override
     {
-        if (bounds() > 0)
+        uint8_t* instance = const_cast<uint8_t*>(c_instance);
+        uint64_t h = 0;
+        for (size_t i = 0; i < get_instance_size(c_instance); ++i)
         {
-            uint8_t* instance = const_cast<uint8_t*>(c_instance);
-            if (content_type().is_constructed_type())
-            {
-                uint64_t h = content_type().hash(instance);
-                for (size_t i = 1; i < bounds(); ++i)
-                {
-                    Instanceable::hash_combine(h, content_type().hash(get_instance_at(instance, i)));
-                }
-                return h;
-            }
-            else
-            {
-                return Instanceable::hash(instance);
-            }
+            Instanceable::hash_combine(h, content_type().hash(get_instance_at(instance, i)));
         }
-        return 0;
+        return h;
     }
 
 protected:
-- 
2.43.0


From 24ebec2eac6caea12fce7bbff8f0dcfd698a43eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 24/62] fix: inserting a pair into a map must store its value
 and reject an existing key

---
 include/xtypes/DynamicData.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index a68ae43..d5cfdda 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -979,7 +979,20 @@ public:
 
         const MapType& map = static_cast<const MapType&>(*type_);
         xtypes_assert(map.content_type().is_compatible(data.type()) == TypeConsistency::EQUALS, "Types doesn't match");
-        return map.insert_instance(instance_, p_instance(data)) != nullptr;
+        const PairType& pair = static_cast<const PairType&>(map.content_type());
+        if (map.has_key(instance_, p_instance(data)))
+        {
+            return false;
+        }
+        uint8_t* place = map.insert_instance(instance_, p_instance(data));
+        if (place == nullptr)
+        {
+            return false;
+        }
+        size_t value_offset = pair.first().memory_size();
+        pair.second().destroy_instance(place + value_offset);
+        pair.second().copy_instance(place + value_offset, p_instance(data) + value_offset);
+        return true;
     }
 
     /// \brief checks if a key is contained in the map represented by the DynamicData.
-- 
2.43.0


From 4d4512d3860900eccf3194f3b007cbecf44ee951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 25/62] fix: a map must reject keys of a type different than
 its key type

---
 include/xtypes/DynamicData.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index d5cfdda..0cd7e8f 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -251,6 +251,7 @@ public:
 
         const MapType& map = static_cast<const MapType&>(*type_);
         const PairType& pair = static_cast<const PairType&>(map.content_type());
+        xtypes_assert(pair.first().is_compatible(data.type()) == TypeConsistency::EQUALS, "Key types doesn't match.");
         uint8_t* instance = map.get_instance_at(instance_, data.instance_);
         xtypes_assert(instance != nullptr, "MapType '" << type_->name() << "' doesn't contains the requested key.");
         return ReadableDynamicDataRef(pair.second(), instance + pair.first().memory_size());
@@ -945,6 +946,7 @@ public:
 
         const MapType& map = static_cast<const MapType&>(*type_);
         const PairType& pair = static_cast<const PairType&>(map.content_type());
+        xtypes_assert(pair.first().is_compatible(data.type()) == TypeConsistency::EQUALS, "Key types doesn't match.");
         uint8_t* instance = map.get_instance_at(instance_, p_instance(data));
         if (instance == nullptr)
         {
-- 
2.43.0


From bc9201b955afc83eb79e5fe725caf1bf031fdf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 26/62] fix: a sequence must reject pushed data of a type
 different than its content

---
 include/xtypes/DynamicData.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 0cd7e8f..39afe33 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -1077,6 +1077,9 @@ public:
         xtypes_assert(type_->kind() == TypeKind::SEQUENCE_TYPE,
                 "push() is only available for sequence types but called for '" << type_->name() << "'.");
         const SequenceType& sequence = static_cast<const SequenceType&>(*type_);
+        xtypes_assert(sequence.content_type().is_compatible(data.type()) == TypeConsistency::EQUALS,
+                "Expected type '" << sequence.content_type().name()
+                                  << "' but '" << data.type().name() << "' received while pushing value.");
 
         uint8_t* element = sequence.push_instance(instance_, p_instance(data));
         xtypes_assert(element != nullptr, "Bound limit reached while pushing value."); (void) element;
-- 
2.43.0


From 1c1612f970b5145b1b3783cc4dacfb45b8389bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 27/62] fix: assigning through a reference must check the types

---
 include/xtypes/DynamicData.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 39afe33..201e1e6 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -823,6 +823,9 @@ public:
     WritableDynamicDataRef& operator = (
             const WritableDynamicDataRef& other)
     {
+        xtypes_assert(type_->is_compatible(other.type()) == TypeConsistency::EQUALS,
+                "Cannot assign data of type '" << other.type().name() << "' to data of type '"
+                                               << type_->name() << "'.");
         type_->destroy_instance(instance_);
         type_->copy_instance(instance_, p_instance(other));
         return *this;
-- 
2.43.0


From 22bc01af6c3a1776eb25d0bcb824302b26c573c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 28/62] fix: assigning a data to itself must keep its value

---
 include/xtypes/DynamicData.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 201e1e6..18ce0ce 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -826,6 +826,10 @@ public:
         xtypes_assert(type_->is_compatible(other.type()) == TypeConsistency::EQUALS,
                 "Cannot assign data of type '" << other.type().name() << "' to data of type '"
                                                << type_->name() << "'.");
+        if (instance_ == p_instance(other))
+        {
+            return *this;
+        }
         type_->destroy_instance(instance_);
         type_->copy_instance(instance_, p_instance(other));
         return *this;
@@ -1041,6 +1045,10 @@ public:
                     "Trying to set an invalid value for enumerated type '" << type_->name() << "'.");
         }
 
+        if (instance_ == reinterpret_cast<const uint8_t*>(&t))
+        {
+            return;
+        }
         type_->destroy_instance(instance_);
         type_->copy_instance(instance_, reinterpret_cast<const uint8_t*>(&t));
     }
@@ -1411,6 +1419,10 @@ public:
         xtypes_assert(type_->is_compatible(other.type()) == TypeConsistency::EQUALS,
                 "Cannot assign DynamicData of type '" << other.type().name() << "' to DynamicData of type '"
                                                       << type_->name() << "'.");
+        if (instance_ == p_instance(other))
+        {
+            return *this;
+        }
         type_->destroy_instance(instance_);
         type_->copy_instance(instance_, p_instance(other));
         return *this;
@@ -1423,6 +1435,10 @@ public:
         xtypes_assert(type_->is_compatible(other.type()) == TypeConsistency::EQUALS,
                 "Cannot assign DynamicData of type '" << other.type().name() << "' to DynamicData of type '"
                                                       << type_->name() << "'.");
+        if (instance_ == p_instance(other))
+        {
+            return *this;
+        }
         type_->destroy_instance(instance_);
         type_->copy_instance(instance_, p_instance(other));
         return *this;
-- 
2.43.0


From 07e0bebefccc6a39cbb7a3fe5ab66f06fdde1ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 29/62] fix: initializing a data from a reference must copy the
 referenced value

---
 include/xtypes/DynamicData.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 18ce0ce..fe6ae21 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -1364,14 +1364,17 @@ public:
     /// \brief Copy constructor from a ReadableDynamicDataRef
     DynamicData(
             const ReadableDynamicDataRef& other)
-        : WritableDynamicDataRef(other)
+        : WritableDynamicDataRef(other.type(), new uint8_t[other.type().memory_size()])
     {
+        memset(instance_, 0, other.type().memory_size());
+        type_->copy_instance(instance_, p_instance(other));
+        initialize_ = true;
     }
 
     /// \brief Move constructor from a WritableDynamicDataRef
     DynamicData(
             WritableDynamicDataRef&& other)
-        : WritableDynamicDataRef(std::move(other))
+        : DynamicData(static_cast<const ReadableDynamicDataRef&>(other))
     {
     }
 
-- 
2.43.0


From 0730b91978b4b2febff6e8c49a428506392792da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 30/62] fix: a member iterator must not refer to the data
 reference that created it

---
 include/xtypes/DynamicData.hpp | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index fe6ae21..5945f9a 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -556,7 +556,6 @@ public:
         MemberIterator(
                 const MemberIterator& it)
             : Iterator (it)
-            , ref_(it.ref_)
         {
         }
 
@@ -586,14 +585,18 @@ public:
         {
             xtypes_assert(type_->is_aggregation_type(),
                     "begin() isn't available for type '" << type_->name() << "'.");
-            return MemberIterator(ref_, false);
+            MemberIterator it(*this);
+            it.index_ = 0;
+            return it;
         }
 
         MemberIterator end() const
         {
             xtypes_assert(type_->is_aggregation_type(),
                     "end() isn't available for type '" << type_->name() << "'.");
-            return MemberIterator(ref_, true);
+            MemberIterator it(*this);
+            it.index_ = static_cast<const AggregationType&>(*type_).members().size();
+            return it;
         }
 
     protected:
@@ -601,13 +604,10 @@ public:
         friend class ReadableDynamicDataRef;
         friend class WritableDynamicDataRef;
 
-        const ReadableDynamicDataRef& ref_;
-
         MemberIterator(
                 const ReadableDynamicDataRef& ref,
                 bool end)
             : Iterator(ref, end)
-            , ref_(ref)
         {
         }
 
@@ -1241,7 +1241,6 @@ public:
         MemberIterator(
                 const MemberIterator& it)
             : Iterator(it)
-            , ref_(it.ref_)
         {
         }
 
@@ -1269,32 +1268,32 @@ public:
 
         MemberIterator begin()
         {
-            return ReadableDynamicDataRef::MemberIterator(ref_, false);
+            MemberIterator it(*this);
+            it.index_ = 0;
+            return it;
         }
 
         MemberIterator end()
         {
-            return ReadableDynamicDataRef::MemberIterator(ref_, true);
+            MemberIterator it(*this);
+            it.index_ = static_cast<const AggregationType&>(*type_).members().size();
+            return it;
         }
 
     protected:
 
         friend class WritableDynamicDataRef;
 
-        WritableDynamicDataRef& ref_;
-
         MemberIterator(
                 WritableDynamicDataRef& ref,
                 bool end)
             : Iterator(ref, end)
-            , ref_(ref)
         {
         }
 
         MemberIterator(
                 const ReadableDynamicDataRef::MemberIterator& mit)
             : Iterator (mit)
-            , ref_(static_cast<WritableDynamicDataRef&>(const_cast<ReadableDynamicDataRef&>(mit.ref_)))
         {
         }
 
-- 
2.43.0


From 9c260846da8857e443ddde96cbcc020b418f515a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 31/62] fix: assigning an iterator must assign the type it
 iterates

---
 include/xtypes/DynamicData.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 5945f9a..c11c83c 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -440,6 +440,7 @@ public:
         Iterator& operator = (
                 const Iterator& other)
         {
+            type_ = other.type_;
             instance_ = other.instance_;
             index_ = other.index_;
             return *this;
-- 
2.43.0


From c1cc51e41e0edb796716e688e4e975517a793927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 32/62] fix: an empty collection can be converted to a vector

---
 include/xtypes/DynamicData.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index c11c83c..30f5667 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -325,6 +325,10 @@ public:
                 "as_vector<" << PrimitiveTypeKindTrait<T>::name << ">() isn't available for type '"
                              << type_->name() << "'.");
 
+        if (size() == 0)
+        {
+            return std::vector<T>();
+        }
         const T* location = reinterpret_cast<T*>(collection.get_instance_at(instance_, 0));
         return std::vector<T>(location, location + size());
     }
-- 
2.43.0


From aa2fecddd90525c8418d5ced659b0e52525810e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 33/62] fix: a failed compatible copy must not leak the memory
 reserved for it

---
 include/xtypes/DynamicData.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 30f5667..17f5e3c 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -1389,11 +1389,12 @@ public:
     DynamicData(
             const ReadableDynamicDataRef& other,
             const DynamicType& type)
-        : WritableDynamicDataRef(type, new uint8_t[type.memory_size()])
+        : WritableDynamicDataRef(type, nullptr)
     {
         xtypes_assert(type_->is_compatible(other.type()) != TypeConsistency::NONE,
                 "Incompatible types in DynamicData(const ReadableDynamicDataRef&, const DynamicType&): '"
                 << type_->name() << "' isn't compatible with '" << other.type().name() << "'.");
+        instance_ = new uint8_t[type.memory_size()];
         memset(instance_, 0, type.memory_size());
         type_->copy_instance_from_type(instance_, p_instance(other), other.type());
         initialize_ = true;
-- 
2.43.0


From 64a21ea2d6c8351423c1b4655ba7e3174782a723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 34/62] fix: string conversion must only append the converted
 characters and reject truncated input

---
 include/xtypes/StringConversion.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/StringConversion.hpp b/include/xtypes/StringConversion.hpp
index 91d495e..c9a9a0f 100644
--- a/include/xtypes/StringConversion.hpp
+++ b/include/xtypes/StringConversion.hpp
@@ -129,8 +129,13 @@ std::basic_string<out> code_conversion_tool(const std::basic_string_view<in>& in
                 }
                 [[fallthrough]];
             case codecvt_base::partial:
+                // the remaining input is incomplete, it cannot be converted
+                if (to_next == buffer)
+                {
+                    throw std::range_error("encountered an incomplete character at the end of the input");
+                }
                 // insert current buffer content
-                output.append(buffer, buffer_size);
+                output.append(buffer, to_next - buffer);
                 break;
 
             case codecvt_base::error:
-- 
2.43.0


From 9455b831b4af950f013d24b0b7ec5302c6074040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 35/62] fix: a wide character can be shown as text

---
 include/xtypes/DynamicDataImpl.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/DynamicDataImpl.hpp b/include/xtypes/DynamicDataImpl.hpp
index 02fd2a6..80dcea2 100644
--- a/include/xtypes/DynamicDataImpl.hpp
+++ b/include/xtypes/DynamicDataImpl.hpp
@@ -145,13 +145,20 @@ inline std::string ReadableDynamicDataRef::to_string() const
                 ss << "<" << type_name << ">  " << node.data().value<char>();
                 break;
             case TypeKind::CHAR_16_TYPE:
-            case TypeKind::WIDE_CHAR_TYPE:
                 {
                     ss << "<" << type_name << ">  ";
                     auto aux = code_conversion_tool<XTYPES_CHAR>(std::u16string(1, node.data().value<char16_t>()));
                     ss << std::string(aux.begin(), aux.end());
                     break;
                 }
+            case TypeKind::WIDE_CHAR_TYPE:
+                {
+                    ss << "<" << type_name << ">  ";
+                    auto aux = code_conversion_tool<XTYPES_CHAR>(
+                        std::u16string(1, static_cast<char16_t>(node.data().value<wchar_t>())));
+                    ss << std::string(aux.begin(), aux.end());
+                    break;
+                }
             case TypeKind::INT_8_TYPE:
                 ss << "<" << type_name << ">  " << node.data().value<int8_t>();
                 break;
-- 
2.43.0


From 949a6d6e20c4ea1d1ac4c92598f2f32c21bc8044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 36/62] fix: an enumeration must keep its values increasing
 after using the maximum one

---
 include/xtypes/EnumerationType.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/xtypes/EnumerationType.hpp b/include/xtypes/EnumerationType.hpp
index ad586f2..89dd7ab 100644
--- a/include/xtypes/EnumerationType.hpp
+++ b/include/xtypes/EnumerationType.hpp
@@ -36,6 +36,8 @@ public:
         // New values must be always greater than the previous ones
         xtypes_assert(value >= next_value_,
             "Expected a value greater than " + std::to_string(next_value_) + " but received " + std::to_string(value));
+        xtypes_assert(EnumeratedType<T>::values_.empty() || next_value_ != T(),
+            "The maximum value was already used, no more enumerators can be added.");
         EnumeratedType<T>::insert_enumerator(name, value);
         next_value_ = value + 1;
         return *this;
-- 
2.43.0


From 675892547671c543bea7c7ad2d6a124ceae6b0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 37/62] fix: the default value of an enumeration can be asked

---
 include/xtypes/EnumerationType.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/EnumerationType.hpp b/include/xtypes/EnumerationType.hpp
index 89dd7ab..20d071e 100644
--- a/include/xtypes/EnumerationType.hpp
+++ b/include/xtypes/EnumerationType.hpp
@@ -59,7 +59,7 @@ public:
         else
         {
             auto it = EnumeratedType<T>::values_.begin();
-            return it.second;
+            return it->second;
         }
     }
 
-- 
2.43.0


From cd8abb13c13039add975cf0e1ee184b6d6577cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 38/62] fix: cloning an enumeration must keep its class and its
 next value

---
 include/xtypes/EnumerationType.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/xtypes/EnumerationType.hpp b/include/xtypes/EnumerationType.hpp
index 20d071e..50f187b 100644
--- a/include/xtypes/EnumerationType.hpp
+++ b/include/xtypes/EnumerationType.hpp
@@ -73,6 +73,14 @@ public:
     }
 
 protected:
+    std::shared_ptr<DynamicType> clone() const override
+    {
+        auto clon = std::make_shared<EnumerationType>(this->name());
+        clon->values_ = this->values_;
+        clon->next_value_ = next_value_;
+        return clon;
+    }
+
     T next_value_ = T();
 
 };
-- 
2.43.0


From 3509aefb5c6d8fd1fef06e89a7e314c1870c3de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 39/62] fix: a union discriminated by an 8 or 16 bits
 enumeration must use its width

---
 include/xtypes/UnionType.hpp | 46 ++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 1025efc..931dad9 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -537,9 +537,14 @@ protected:
 
         if (type->kind() == TypeKind::ENUMERATION_TYPE)
         {
-            [[maybe_unused]] EnumerationType<uint32_t>* enum_type = static_cast<EnumerationType<uint32_t>*>(type);
+            [[maybe_unused]] bool allowed =
+                    type->memory_size() == sizeof(uint8_t) ?
+                    static_cast<EnumerationType<uint8_t>*>(type)->is_allowed_value(static_cast<uint8_t>(label)) :
+                    type->memory_size() == sizeof(uint16_t) ?
+                    static_cast<EnumerationType<uint16_t>*>(type)->is_allowed_value(static_cast<uint16_t>(label)) :
+                    static_cast<EnumerationType<uint32_t>*>(type)->is_allowed_value(static_cast<uint32_t>(label));
             xtypes_assert(
-                enum_type->is_allowed_value(label),
+                allowed,
                 "Value '" << label << "' isn't allowed by the discriminator enumeration '" << type->name() << "'");
         }
     }
@@ -638,9 +643,7 @@ protected:
             case TypeKind::ENUMERATION_TYPE:
             {
                 // TODO: If other enumeration types are added, switch again.
-                uint32_t lvalue = *reinterpret_cast<uint32_t*>(label_instance);
-                int64_t new_value = static_cast<int64_t>(lvalue);
-                current_label(instance, new_value);
+                current_label(instance, current_label(type, label_instance));
             }
             break;
             case TypeKind::ALIAS_TYPE:
@@ -750,7 +753,16 @@ protected:
             break;
             case TypeKind::ENUMERATION_TYPE:
             {
-                // TODO: If other enumeration types are added, switch again.
+                if (disc_->type().memory_size() == sizeof(uint8_t))
+                {
+                    *reinterpret_cast<uint8_t*>(instance) = static_cast<uint8_t>(new_value);
+                    break;
+                }
+                if (disc_->type().memory_size() == sizeof(uint16_t))
+                {
+                    *reinterpret_cast<uint16_t*>(instance) = static_cast<uint16_t>(new_value);
+                    break;
+                }
                 uint32_t lvalue = static_cast<uint32_t>(new_value);
                 uint32_t& value = *reinterpret_cast<uint32_t*>(instance);
                 value = lvalue;
@@ -844,7 +856,16 @@ protected:
             break;
             case TypeKind::ENUMERATION_TYPE:
             {
-                // TODO: If other enumeration types are added, switch again.
+                if (type.memory_size() == sizeof(uint8_t))
+                {
+                    disc_value = *reinterpret_cast<const uint8_t*>(instance);
+                    break;
+                }
+                if (type.memory_size() == sizeof(uint16_t))
+                {
+                    disc_value = *reinterpret_cast<const uint16_t*>(instance);
+                    break;
+                }
                 uint32_t value = *reinterpret_cast<const uint32_t*>(instance);
                 disc_value = shrink_label(value, type.memory_size());
             }
@@ -1140,9 +1161,14 @@ protected:
                             if (new_s.find("*") != std::string::npos)
                             {
                                 // Get the Enum value
-                                const EnumerationType<uint32_t>& enum_type =
-                                        static_cast<const EnumerationType<uint32_t>&>(disc_->type());
-                                value = enum_type.value(label);
+                                const DynamicType& enum_type = disc_->type().kind() == TypeKind::ALIAS_TYPE
+                                        ? static_cast<const AliasType&>(disc_->type()).rget()
+                                        : disc_->type();
+                                value = enum_type.memory_size() == sizeof(uint8_t)
+                                        ? static_cast<const EnumerationType<uint8_t>&>(enum_type).value(label)
+                                        : enum_type.memory_size() == sizeof(uint16_t)
+                                        ? static_cast<const EnumerationType<uint16_t>&>(enum_type).value(label)
+                                        : static_cast<const EnumerationType<uint32_t>&>(enum_type).value(label);
                             }
                         }
                         result.emplace_back(static_cast<int64_t>(value));
-- 
2.43.0


From cefe52f211719e4b9950b8d0188eae2bf39020a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 40/62] fix: asking for an unknown submodule must not create an
 empty one

---
 include/xtypes/idl/Module.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 864ff06..cea5bca 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -68,7 +68,8 @@ public:
     std::shared_ptr<Module> submodule(
             const std::string& submodule)
     {
-        return inner_[submodule];
+        auto it = inner_.find(submodule);
+        return it != inner_.end() ? it->second : nullptr;
     }
 
     size_t submodule_size()
-- 
2.43.0


From 88c3f2de96ee08fe4bf9102e0a7aa4085cc64674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 41/62] fix: accessing an unknown submodule must be rejected
 instead of dereferencing an empty one

---
 include/xtypes/idl/Module.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index cea5bca..2648d1c 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -117,7 +117,7 @@ public:
     Module& operator [] (
             const std::string& submodule)
     {
-        return *inner_[submodule];
+        return *inner_.at(submodule);
     }
 
     const Module& operator [] (
-- 
2.43.0


From 0394da23aef5df3971c59c8657ea7e712aff5273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 42/62] fix: an enumeration must be found through its scoped
 name as any other type

---
 include/xtypes/idl/Module.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 2648d1c..76d09cf 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -486,7 +486,14 @@ public:
     bool has_enum_32(
             const std::string& name) const
     {
-        return enumerations_32_.count(name) > 0;
+        // Solve scope
+        PairModuleSymbol module = resolve_scope(name);
+        if (module.first == nullptr)
+        {
+            return false;
+        }
+
+        return module.first->enumerations_32_.count(module.second) > 0;
     }
 
     const EnumerationType<uint32_t>& enum_32(
-- 
2.43.0


From 98dbabd593547e211ffee97b8c149e58e42dda9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 43/62] fix: a recursive type search must keep the type found
 in a submodule

---
 include/xtypes/idl/Module.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 76d09cf..3103e28 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -612,6 +612,10 @@ public:
             for (auto [key, mod]: inner_)
             {
                 ret_type = mod.get()->type(name, recursive);
+                if (ret_type.get() != nullptr)
+                {
+                    break;
+                }
             }
         }
 
-- 
2.43.0


From 1f9d7bd9d2af455035ba68d792525a30756abca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 44/62] fix: asking for the type of a globally scoped symbol
 that is not a type must not crash

---
 include/xtypes/idl/Module.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 3103e28..2020ea9 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -650,7 +650,7 @@ public:
             ret_type = module.first->aliases_.at(module.second).get();
         }
 
-        if (name.find("::") == 0)
+        if (name.find("::") == 0 && ret_type.get() != nullptr)
         {
             // Scope ambiguity solver was originally used, add it to the retrieved DynamicType
             ret_type->name(name);
-- 
2.43.0


From b9c5354b4a9aa65643d030a59fc4695be2bb0eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 45/62] fix: the label of a union discriminated by an aliased
 or narrow enumeration must be looked up in that enumeration

---
 include/xtypes/idl/generator.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/idl/generator.hpp b/include/xtypes/idl/generator.hpp
index 2b39ad4..a2619ce 100644
--- a/include/xtypes/idl/generator.hpp
+++ b/include/xtypes/idl/generator.hpp
@@ -261,7 +261,19 @@ inline std::string label_value(
         }
         case TypeKind::ENUMERATION_TYPE:
         {
-            return static_cast<const EnumerationType<uint32_t>&>(type).enumerator(static_cast<uint32_t>(value));
+            const DynamicType& enum_type = (type.kind() == TypeKind::ALIAS_TYPE)
+                    ? static_cast<const AliasType&>(type).rget()
+                    : type;
+            if (enum_type.memory_size() == sizeof(uint8_t))
+            {
+                return static_cast<const EnumerationType<uint8_t>&>(enum_type).enumerator(static_cast<uint8_t>(value));
+            }
+            if (enum_type.memory_size() == sizeof(uint16_t))
+            {
+                return static_cast<const EnumerationType<uint16_t>&>(enum_type).enumerator(
+                    static_cast<uint16_t>(value));
+            }
+            return static_cast<const EnumerationType<uint32_t>&>(enum_type).enumerator(static_cast<uint32_t>(value));
         }
         default:
             xtypes_assert(false, "Unsupported type found while generating label value: " << type.name());
-- 
2.43.0


From 2ebfc3cc03c9f0ffa5fbf638814feb3f3ceec092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 46/62] fix: equality of collections of floating point numbers
 compares the numbers

---
 include/xtypes/ArrayType.hpp        | 4 ++--
 include/xtypes/DynamicType.hpp      | 8 ++++++++
 include/xtypes/MapInstance.hpp      | 3 ++-
 include/xtypes/SequenceInstance.hpp | 2 +-
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/xtypes/ArrayType.hpp b/include/xtypes/ArrayType.hpp
index c932b9c..f48512d 100644
--- a/include/xtypes/ArrayType.hpp
+++ b/include/xtypes/ArrayType.hpp
@@ -219,7 +219,7 @@ public:
             const uint8_t* other_instance) const override
     {
         size_t block_size = content_type().memory_size();
-        if (content_type().is_constructed_type())
+        if (content_type().is_constructed_type() || content_type().is_floating_point_type())
         {
             bool comp = true;
             for (uint32_t i = 0; i < dimension_; i++)
@@ -306,7 +306,7 @@ public:
         if (dimension_ > 0)
         {
             uint8_t* instance = const_cast<uint8_t*>(c_instance);
-            if (content_type().is_constructed_type())
+            if (content_type().is_constructed_type() || content_type().is_floating_point_type())
             {
                 uint64_t h = content_type().hash(instance);
                 for (size_t i = 1; i < dimension_; ++i)
diff --git a/include/xtypes/DynamicType.hpp b/include/xtypes/DynamicType.hpp
index fa633d8..cec3375 100644
--- a/include/xtypes/DynamicType.hpp
+++ b/include/xtypes/DynamicType.hpp
@@ -62,6 +62,14 @@ public:
         return (kind_& TypeKind::PRIMITIVE_TYPE) != TypeKind::NO_TYPE;
     }
 
+    /// \brief check if this type is a floating point number:
+    /// two of them can be equal having different representations.
+    /// \returns true if is a floating point number
+    bool is_floating_point_type() const
+    {
+        return kind_ == TypeKind::FLOAT_32_TYPE || kind_ == TypeKind::FLOAT_64_TYPE || kind_ == TypeKind::FLOAT_128_TYPE;
+    }
+
     /// \brief check if this type is a collection
     /// (has the corresponding bit of TypeKind::COLLECTION_TYPE in its kind).
     /// \returns true if is a collection
diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index 48853a1..a7428cb 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -111,7 +111,8 @@ public:
             return false;
         }
 
-        if (content_->first().is_constructed_type() || content_->second().is_constructed_type())
+        if (content_->first().is_constructed_type() || content_->second().is_constructed_type()
+                || content_->first().is_floating_point_type() || content_->second().is_floating_point_type())
         {
             bool comp = true;
             for (uint32_t i = 0; i < size_; i++)
diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index d5780a8..52ef6ea 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -122,7 +122,7 @@ public:
             return false;
         }
 
-        if (content_->is_constructed_type())
+        if (content_->is_constructed_type() || content_->is_floating_point_type())
         {
             bool comp = true;
             for (uint32_t i = 0; i < size_; i++)
-- 
2.43.0


From fb0f50f55d85b7b5bd1fe4372bcba442fa06c1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:43 +0000
Subject: [PATCH 47/62] fix: equal floating point numbers have equal hashes

---
 include/xtypes/PrimitiveType.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/xtypes/PrimitiveType.hpp b/include/xtypes/PrimitiveType.hpp
index d85b5de..385aec2 100644
--- a/include/xtypes/PrimitiveType.hpp
+++ b/include/xtypes/PrimitiveType.hpp
@@ -22,6 +22,8 @@
 #include <xtypes/StructType.hpp>
 
 #include <cstring>
+#include <functional>
+#include <type_traits>
 
 namespace eprosima {
 namespace xtypes {
@@ -277,6 +279,16 @@ protected:
         return consistency;
     }
 
+    virtual uint64_t hash(
+            const uint8_t* instance) const override
+    {
+        if (std::is_floating_point<T>::value) // equal numbers can have different bytes
+        {
+            return std::hash<T>()(*reinterpret_cast<const T*>(instance));
+        }
+        return Instanceable::hash(instance);
+    }
+
     virtual void for_each_instance(
             const InstanceNode& node,
             InstanceVisitor visitor) const override
-- 
2.43.0


From b980ad4f06bf0c0d8488ae30ef399253a7db1077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:34 +0000
Subject: [PATCH 48/62] fix: pushing to and viewing a collection whose elements
 are declared with an alias

---
 include/xtypes/DynamicData.hpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 17f5e3c..801e445 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -317,11 +317,12 @@ public:
         const CollectionType& collection = static_cast<const CollectionType&>(*type_);
         xtypes_assert(type_->is_collection_type(),
                 "as_vector() isn't available for type '" << type_->name() << "'.");
-        xtypes_assert((collection.content_type().kind() == TypeKind::STRING_TYPE && std::is_same<std::string, T>::value)
-                || (collection.content_type().kind() == TypeKind::WSTRING_TYPE && std::is_same<std::wstring, T>::value)
-                || (collection.content_type().kind() == TypeKind::STRING16_TYPE &&
+        [[maybe_unused]] const TypeKind content_kind = resolved_kind(collection.content_type());
+        xtypes_assert((content_kind == TypeKind::STRING_TYPE && std::is_same<std::string, T>::value)
+                || (content_kind == TypeKind::WSTRING_TYPE && std::is_same<std::wstring, T>::value)
+                || (content_kind == TypeKind::STRING16_TYPE &&
                 std::is_same<std::u16string, T>::value)
-                || (collection.content_type().kind() == primitive_type<T>().kind()),
+                || (content_kind == primitive_type<T>().kind()),
                 "as_vector<" << PrimitiveTypeKindTrait<T>::name << ">() isn't available for type '"
                              << type_->name() << "'.");
 
@@ -630,6 +631,15 @@ public:
 
 protected:
 
+    /// \brief Kind of a type once its aliases are resolved
+    static TypeKind resolved_kind(
+            const DynamicType& type)
+    {
+        return type.kind() == TypeKind::ALIAS_TYPE
+            ? static_cast<const AliasType&>(type).rget().kind()
+            : type.kind();
+    }
+
     ReadableDynamicDataRef(
             const DynamicType& type,
             uint8_t* source)
@@ -1070,10 +1080,11 @@ public:
         xtypes_assert(type_->kind() == TypeKind::SEQUENCE_TYPE,
                 "push() is only available for sequence types but called for '" << type_->name() << "'.");
         const SequenceType& sequence = static_cast<const SequenceType&>(*type_);
-        xtypes_assert((sequence.content_type().kind() == TypeKind::STRING_TYPE && std::is_same<std::string, T>::value)
-                || (sequence.content_type().kind() == TypeKind::WSTRING_TYPE && std::is_same<std::wstring, T>::value)
-                || (sequence.content_type().kind() == TypeKind::STRING16_TYPE && std::is_same<std::u16string, T>::value)
-                || (sequence.content_type().kind() == primitive_type<T>().kind()),
+        [[maybe_unused]] const TypeKind content_kind = resolved_kind(sequence.content_type());
+        xtypes_assert((content_kind == TypeKind::STRING_TYPE && std::is_same<std::string, T>::value)
+                || (content_kind == TypeKind::WSTRING_TYPE && std::is_same<std::wstring, T>::value)
+                || (content_kind == TypeKind::STRING16_TYPE && std::is_same<std::u16string, T>::value)
+                || (content_kind == primitive_type<T>().kind()),
                 "Expected type '" << static_cast<const SequenceType&>(*type_).content_type().name()
                                   << "' but '" << PrimitiveTypeKindTrait<T>::name << "' received while pushing value.");
 
-- 
2.43.0


From f5e670d0c60b0316552b5dfc8fd16c58b06e8423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:34 +0000
Subject: [PATCH 49/62] fix: to_string shows unions, pairs, enumeration values
 and 8 bit integers

---
 include/xtypes/DynamicDataImpl.hpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/xtypes/DynamicDataImpl.hpp b/include/xtypes/DynamicDataImpl.hpp
index 80dcea2..96853f6 100644
--- a/include/xtypes/DynamicDataImpl.hpp
+++ b/include/xtypes/DynamicDataImpl.hpp
@@ -160,10 +160,10 @@ inline std::string ReadableDynamicDataRef::to_string() const
                     break;
                 }
             case TypeKind::INT_8_TYPE:
-                ss << "<" << type_name << ">  " << node.data().value<int8_t>();
+                ss << "<" << type_name << ">  " << static_cast<int>(node.data().value<int8_t>());
                 break;
             case TypeKind::UINT_8_TYPE:
-                ss << "<" << type_name << ">  " << node.data().value<uint8_t>();
+                ss << "<" << type_name << ">  " << static_cast<int>(node.data().value<uint8_t>());
                 break;
             case TypeKind::INT_16_TYPE:
                 ss << "<" << type_name << ">  " << node.data().value<int16_t>();
@@ -222,8 +222,25 @@ inline std::string ReadableDynamicDataRef::to_string() const
             case TypeKind::STRUCTURE_TYPE:
                 ss << "Structure: <" << type_name << ">";
                 break;
+            case TypeKind::UNION_TYPE:
+                ss << "Union: <" << type_name << ">";
+                break;
+            case TypeKind::PAIR_TYPE:
+                ss << "Pair: <" << type_name << ">";
+                break;
             case TypeKind::ENUMERATION_TYPE:
-                ss << "Enumeration: <" << type_name << ">";
+                ss << "Enumeration: <" << type_name << ">  ";
+                switch (node.data().type().memory_size())
+                {
+                    case sizeof(uint8_t):
+                        ss << static_cast<uint32_t>(node.data().value<uint8_t>());
+                        break;
+                    case sizeof(uint16_t):
+                        ss << node.data().value<uint16_t>();
+                        break;
+                    default:
+                        ss << node.data().value<uint32_t>();
+                }
                 break;
             default:
                 ss << "Unsupported type: " << type_name;
-- 
2.43.0


From f8ff021d61182b739f85f3cf2b1e73d0045bf550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:15 +0000
Subject: [PATCH 50/62] fix: a key inserted into a map can be located inside
 the map

---
 include/xtypes/MapInstance.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index a7428cb..596f796 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -21,6 +21,7 @@
 
 #include <cstdint>
 #include <cstring>
+#include <functional>
 
 namespace eprosima {
 namespace xtypes {
@@ -141,12 +142,30 @@ public:
             const uint8_t* instance,
             uint32_t bounds)
     {
+        // The key can be located inside an element of this map, it must be located again each time the elements move.
+        std::less<const uint8_t*> before;
+        bool is_inside = memory_ != nullptr
+            && !before(instance, memory_)
+            && before(instance, get_element(size_));
+
         if (memory_ == nullptr || size_ == capacity_)
         {
+            size_t offset = is_inside ? instance - memory_ : 0;
+
             realloc((capacity_ > 0) ? capacity_ * 2 : 1, bounds);
+
+            if (is_inside)
+            {
+                instance = memory_ + offset;
+            }
         }
 
         uint8_t* place = create_place(instance);
+        if (is_inside && !before(instance, place))
+        {
+            instance += block_size_; // It was moved to create the place
+        }
+
         content_->destroy_instance(place); // All slots are constructed when the memory is reserved
         content_->first().copy_instance(place, instance);
         content_->second().construct_instance(place + content_->first().memory_size());
-- 
2.43.0


From 799f959ffea004a08b46578f3d194a572dfd6867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:49 +0000
Subject: [PATCH 51/62] fix: sequences and maps never reserve less storage than
 they use

Offsets and amounts of storage were computed with 32 bits, so that a
sequence beyond 4 GB wrote outside of its memory. The capacity wrapped the
same way, and a size that cannot be represented was truncated.
---
 include/xtypes/DynamicData.hpp      |  6 +++---
 include/xtypes/MapInstance.hpp      |  2 +-
 include/xtypes/SequenceInstance.hpp | 15 ++++++++++++---
 include/xtypes/SequenceType.hpp     |  2 +-
 4 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 801e445..c3c1afc 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -1125,10 +1125,10 @@ public:
     {
         xtypes_assert(type_->kind() == TypeKind::SEQUENCE_TYPE,
                 "resize() is only available for sequence types but called for '" << type_->name() << "'.");
-        [[maybe_unused]] size_t bound = bounds();
-        xtypes_assert(!bound || bound >= size,
+        [[maybe_unused]] size_t bound = SequenceInstance::max_size(uint32_t(bounds()));
+        xtypes_assert(bound >= size,
                 "The desired size (" << size << ") is bigger than maximum allowed size for the type '"
-                                     << type_->name() << "' (" << bounds() << ").");
+                                     << type_->name() << "' (" << bound << ").");
         const SequenceType& sequence = static_cast<const SequenceType&>(*type_);
         sequence.resize_instance(instance_, size);
         return *this;
diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index 596f796..65195db 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -232,7 +232,7 @@ private:
     friend class MapType;
 
     std::shared_ptr<const PairType> content_;
-    uint32_t block_size_ = 0;
+    size_t block_size_ = 0;
     uint32_t capacity_ = 0;
     uint8_t* memory_ = nullptr;
     uint32_t size_ = 0;
diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index 52ef6ea..473e2a8 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -159,7 +159,7 @@ public:
                 && before(instance, memory_ + size_ * block_size_);
             size_t element_offset = is_element ? instance - memory_ : 0;
 
-            realloc((capacity_ > 0) ? capacity_ * 2 : 1, bounds);
+            realloc((capacity_ > 0) ? size_t(capacity_) * 2 : 1, bounds);
 
             if (is_element)
             {
@@ -211,12 +211,21 @@ public:
         return size_;
     }
 
+    /// \brief Maximum number of elements a sequence can have.
+    /// \param[in] bounds Size limit of the sequence, 0 means that no limits.
+    /// \returns The bounds, or the maximum size that can be represented if the sequence has no bounds.
+    static size_t max_size(
+            uint32_t bounds)
+    {
+        return bounds == 0 ? UINT32_MAX : bounds;
+    }
+
 private:
 
     friend class SequenceType;
 
     std::shared_ptr<const DynamicType> content_;
-    uint32_t block_size_ = 0;
+    size_t block_size_ = 0;
     uint32_t capacity_ = 0;
     uint8_t* memory_ = nullptr;
     uint32_t size_ = 0;
@@ -225,7 +234,7 @@ private:
             size_t desired_capacity,
             uint32_t bounds)
     {
-        size_t new_capacity = bounds == 0 ? desired_capacity : std::min(desired_capacity, size_t(bounds));
+        size_t new_capacity = std::min(desired_capacity, max_size(bounds));
         uint8_t* new_memory = nullptr;
         init_memory(new_memory, new_capacity);
 
diff --git a/include/xtypes/SequenceType.hpp b/include/xtypes/SequenceType.hpp
index a1a4836..bb9488d 100644
--- a/include/xtypes/SequenceType.hpp
+++ b/include/xtypes/SequenceType.hpp
@@ -213,7 +213,7 @@ public:
             uint8_t* instance,
             const uint8_t* value) const
     {
-        if (get_instance_size(instance) < bounds() || bounds() == 0)
+        if (get_instance_size(instance) < SequenceInstance::max_size(bounds()))
         {
             return reinterpret_cast<SequenceInstance*>(instance)->push(value, bounds());
         }
-- 
2.43.0


From 0e3fd5d6cd9452751ae0e2317ddec8bc51dacf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:26 +0000
Subject: [PATCH 52/62] fix: wide characters beyond 16 bits are shown whole

---
 include/xtypes/DynamicDataImpl.hpp  |  7 +++----
 include/xtypes/StringConversion.hpp | 23 +++++++++++++++++++++++
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/xtypes/DynamicDataImpl.hpp b/include/xtypes/DynamicDataImpl.hpp
index 96853f6..b3a5189 100644
--- a/include/xtypes/DynamicDataImpl.hpp
+++ b/include/xtypes/DynamicDataImpl.hpp
@@ -155,7 +155,7 @@ inline std::string ReadableDynamicDataRef::to_string() const
                 {
                     ss << "<" << type_name << ">  ";
                     auto aux = code_conversion_tool<XTYPES_CHAR>(
-                        std::u16string(1, static_cast<char16_t>(node.data().value<wchar_t>())));
+                        wide_to_utf16(std::wstring(1, node.data().value<wchar_t>())));
                     ss << std::string(aux.begin(), aux.end());
                     break;
                 }
@@ -198,9 +198,8 @@ inline std::string ReadableDynamicDataRef::to_string() const
             case TypeKind::WSTRING_TYPE:
                 {
                     ss << "<" << type_name << ">  ";
-                    auto aux = node.data().value<std::wstring>();
-                    auto aux2 = code_conversion_tool<XTYPES_CHAR>(std::u16string(aux.begin(), aux.end()));
-                    ss << std::string(aux2.begin(), aux2.end());
+                    auto aux = code_conversion_tool<XTYPES_CHAR>(wide_to_utf16(node.data().value<std::wstring>()));
+                    ss << std::string(aux.begin(), aux.end());
                     break;
                 }
             case TypeKind::STRING16_TYPE:
diff --git a/include/xtypes/StringConversion.hpp b/include/xtypes/StringConversion.hpp
index c9a9a0f..4d45a0a 100644
--- a/include/xtypes/StringConversion.hpp
+++ b/include/xtypes/StringConversion.hpp
@@ -18,7 +18,9 @@
 #ifndef EPROSIMA_STRING_CONVERSION_HPP_
 #define EPROSIMA_STRING_CONVERSION_HPP_
 
+#include <cstdint>
 #include <locale>
+#include <string>
 #include <version>
 
 #ifdef __cpp_char8_t
@@ -156,6 +158,27 @@ std::basic_string<out> code_conversion_tool(const std::basic_string<in>& input)
     return code_conversion_tool<out>(std::basic_string_view<in>{input});
 }
 
+/// \brief Encode wide characters as UTF-16. Where wchar_t is wider than 16 bits the characters outside of the basic
+/// multilingual plane become surrogate pairs.
+inline std::u16string wide_to_utf16(const std::wstring& input)
+{
+    std::u16string output;
+    for (wchar_t character : input)
+    {
+        const uint32_t code = static_cast<uint32_t>(character);
+        if (code > 0xFFFF)
+        {
+            output += static_cast<char16_t>(0xD7C0 + (code >> 10));
+            output += static_cast<char16_t>(0xDC00 + (code & 0x3FF));
+        }
+        else
+        {
+            output += static_cast<char16_t>(code);
+        }
+    }
+    return output;
+}
+
 } // eprosima
 
 #endif // EPROSIMA_STRING_CONVERSION_HPP_
-- 
2.43.0


From ae8b57419a0d6e0efa205b21f4b3e95d1768a303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:43 +0000
Subject: [PATCH 53/62] fix: a qualified name is not looked for outside the
 module it names

---
 include/xtypes/idl/Module.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 2020ea9..860f6e5 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -771,7 +771,7 @@ protected:
             return std::make_pair<const Module*, std::string>(this, std::move(name));
         }
 
-        if (outer_ != nullptr)
+        if (outer_ != nullptr && first) // The scopes of a qualified name are fixed by its qualifiers.
         {
             return outer_->resolve_scope(symbol_name, original_name, true);
         }
-- 
2.43.0


From 6e62310c3fbcc7c1c89eda142cbac9ae1929bced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:43 +0000
Subject: [PATCH 54/62] fix: an alias may hide an alias of an outer module

---
 include/xtypes/idl/Module.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 860f6e5..190395a 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -572,7 +572,7 @@ public:
             const DynamicType::Ptr&& type,
             const std::string& name)
     {
-        if (name.find("::") != std::string::npos || has_alias(name))
+        if (name.find("::") != std::string::npos || aliases_.count(name) > 0)
         {
             return false; // Cannot define alias with scoped name (or already defined).
         }
-- 
2.43.0


From a97c303575759cf5939d5a06d24f991663dad02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:43 +0000
Subject: [PATCH 55/62] fix: a constant replacing an enumerator's is not taken
 for an enumerator

---
 include/xtypes/idl/Module.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 190395a..70bb5b8 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -452,6 +452,7 @@ public:
             {
                 constants_.erase(it);
                 constants_types_.erase(constants_types_.find(name));
+                from_enum_.erase(std::remove(from_enum_.begin(), from_enum_.end(), name), from_enum_.end());
             }
         }
 
-- 
2.43.0


From b556f089a8c4851791be043d22be1f81db4e7289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:50 +0000
Subject: [PATCH 56/62] fix: a reference made from a temporary value leaves its
 content to it

---
 include/xtypes/DynamicData.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index c3c1afc..41b4638 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -69,11 +69,10 @@ public:
     ReadableDynamicDataRef(const ReadableDynamicDataRef& other) = default;
 
     ReadableDynamicDataRef(ReadableDynamicDataRef&& other)
-        : type_(std::move(other.type_))
+        : type_(other.type_) // A reference owns nothing: the other may be a DynamicData, that must still release its content.
         , instance_(other.instance_)
         , initialize_(other.initialize_)
     {
-        other.initialize_ = false;
     }
 
     virtual ~ReadableDynamicDataRef() = default;
-- 
2.43.0


From f3d616d2e3befb5a9b9b8bf26c71642a20e82ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:50 +0000
Subject: [PATCH 57/62] fix: a value that has been moved from can be used and
 releases its content

---
 include/xtypes/DynamicData.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 41b4638..3793b78 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -1427,7 +1427,11 @@ public:
     {
         memset(instance_, 0, other.type().memory_size());
         type_->move_instance(instance_, p_instance(other), false);
-        other.initialize_ = false;
+
+        // The other has nothing left, but it may still be used.
+        type_->destroy_instance(other.instance_);
+        memset(other.instance_, 0, type_->memory_size());
+        type_->construct_instance(other.instance_);
     }
 
     /// \brief Assignment operator
-- 
2.43.0


From 806f9cad0e06595f36e04285a043eab793d7c6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:32 +0000
Subject: [PATCH 58/62] fix: the generator writes negative union labels as
 negative numbers

---
 include/xtypes/idl/generator.hpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/xtypes/idl/generator.hpp b/include/xtypes/idl/generator.hpp
index a2619ce..6f54d4f 100644
--- a/include/xtypes/idl/generator.hpp
+++ b/include/xtypes/idl/generator.hpp
@@ -240,7 +240,6 @@ inline std::string label_value(
             return ss.str();
         }
         case TypeKind::CHAR_16_TYPE:
-        case TypeKind::WIDE_CHAR_TYPE:
         {
             char16_t temp = static_cast<char16_t>(value);
             std::stringstream ss;
@@ -248,13 +247,33 @@ inline std::string label_value(
             ss << "L'" << std::string(aux.begin(), aux.end()) << "'";
             return ss.str();
         }
+        case TypeKind::WIDE_CHAR_TYPE:
+        {
+            wchar_t temp = static_cast<wchar_t>(value);
+            std::stringstream ss;
+            auto aux = code_conversion_tool<XTYPES_CHAR>(wide_to_utf16(std::wstring(1, temp)));
+            ss << "L'" << std::string(aux.begin(), aux.end()) << "'";
+            return ss.str();
+        }
         case TypeKind::INT_8_TYPE:
-        case TypeKind::UINT_8_TYPE:
+        {
+            return std::to_string(static_cast<int8_t>(value));
+        }
         case TypeKind::INT_16_TYPE:
-        case TypeKind::UINT_16_TYPE:
+        {
+            return std::to_string(static_cast<int16_t>(value));
+        }
         case TypeKind::INT_32_TYPE:
-        case TypeKind::UINT_32_TYPE:
+        {
+            return std::to_string(static_cast<int32_t>(value));
+        }
         case TypeKind::INT_64_TYPE:
+        {
+            return std::to_string(static_cast<int64_t>(value));
+        }
+        case TypeKind::UINT_8_TYPE:
+        case TypeKind::UINT_16_TYPE:
+        case TypeKind::UINT_32_TYPE:
         case TypeKind::UINT_64_TYPE:
         {
             return std::to_string(value);
-- 
2.43.0


From c8edd6038d9808173c10161bfd3e6f268b5c9665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:54 +0000
Subject: [PATCH 59/62] fix: the generator writes constants as literals of
 their type

---
 include/xtypes/idl/generator.hpp | 91 ++++++++++++++++++++------------
 1 file changed, 56 insertions(+), 35 deletions(-)

diff --git a/include/xtypes/idl/generator.hpp b/include/xtypes/idl/generator.hpp
index 6f54d4f..1d46bfe 100644
--- a/include/xtypes/idl/generator.hpp
+++ b/include/xtypes/idl/generator.hpp
@@ -28,6 +28,8 @@
 #include <xtypes/idl/generator_deptree.hpp>
 #include <xtypes/idl/Module.hpp>
 
+#include <iomanip>
+#include <limits>
 #include <sstream>
 
 #define dependencynode_assert(NODEPTR, KIND) \
@@ -455,47 +457,66 @@ inline std::string enumeration32(
     return ss.str();
 }
 
-inline std::string get_const_value(
-        ReadableDynamicDataRef data)
+template<typename T>
+inline std::string floating_point_value(
+        T value)
 {
     std::stringstream ss;
-    std::string prefix = "";
-    std::string suffix = "";
-
-    if (data.type().kind() == TypeKind::STRING_TYPE)
-    {
-        prefix = "\"";
-        suffix = "\"";
-    }
-    else if (data.type().kind() == TypeKind::WSTRING_TYPE)
-    {
-        prefix = "L\"";
-        suffix = "\"";
-    }
-    else if (data.type().kind() == TypeKind::STRING16_TYPE)
-    {
-        prefix = "L\"";
-        suffix = "\"";
-    }
-    else if (data.type().kind() == TypeKind::CHAR_8_TYPE)
+    ss << std::setprecision(std::numeric_limits<T>::max_digits10) << value;
+    std::string text = ss.str();
+    if (text.find_first_not_of("-0123456789") == std::string::npos)
     {
-        prefix = "'";
-        suffix = "'";
-    }
-    else if (data.type().kind() == TypeKind::CHAR_16_TYPE)
-    {
-        prefix = "L'";
-        suffix = "'";
-    }
-    else if (data.type().kind() == TypeKind::WIDE_CHAR_TYPE)
-    {
-        prefix = "L'";
-        suffix = "'";
+        text += ".0"; // Not an integer literal.
     }
+    return text;
+}
 
-    ss << prefix << data.cast<std::string>() << suffix;
+inline std::string get_const_value(
+        ReadableDynamicDataRef data)
+{
+    const DynamicType& type = data.type();
 
-    return ss.str();
+    switch (type.kind())
+    {
+        case TypeKind::BOOLEAN_TYPE:
+            return label_value(static_cast<size_t>(data.value<bool>()), type);
+        case TypeKind::CHAR_8_TYPE:
+            return label_value(static_cast<size_t>(data.value<char>()), type);
+        case TypeKind::CHAR_16_TYPE:
+            return label_value(static_cast<size_t>(data.value<char16_t>()), type);
+        case TypeKind::WIDE_CHAR_TYPE:
+            return label_value(static_cast<size_t>(data.value<wchar_t>()), type);
+        case TypeKind::ENUMERATION_TYPE:
+            if (type.memory_size() == sizeof(uint8_t))
+            {
+                return label_value(data.value<uint8_t>(), type);
+            }
+            if (type.memory_size() == sizeof(uint16_t))
+            {
+                return label_value(data.value<uint16_t>(), type);
+            }
+            return label_value(data.value<uint32_t>(), type);
+        case TypeKind::FLOAT_32_TYPE:
+            return floating_point_value(data.value<float>());
+        case TypeKind::FLOAT_64_TYPE:
+            return floating_point_value(data.value<double>());
+        case TypeKind::FLOAT_128_TYPE:
+            return floating_point_value(data.value<long double>());
+        case TypeKind::STRING_TYPE:
+            return "\"" + data.value<std::string>() + "\"";
+        case TypeKind::WSTRING_TYPE:
+        {
+            auto aux = code_conversion_tool<XTYPES_CHAR>(wide_to_utf16(data.value<std::wstring>()));
+            return "L\"" + std::string(aux.begin(), aux.end()) + "\"";
+        }
+        case TypeKind::STRING16_TYPE:
+        {
+            auto aux = code_conversion_tool<XTYPES_CHAR>(data.value<std::u16string>());
+            return "L\"" + std::string(aux.begin(), aux.end()) + "\"";
+        }
+        default:
+            return data.cast<std::string>();
+    }
 }
 
 } //namespace generator
-- 
2.43.0


From 3c9bf24b07f8d3533feca338fea76c68b7b54467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:25 +0000
Subject: [PATCH 60/62] fix: name an array of several dimensions like the
 nested arrays it stands for

ArrayType(content, {2, 3}) was named "array_2_<content>" for every inner
dimension, while the same type built from nested arrays is
"array_2_array_3_<content>".
---
 include/xtypes/ArrayType.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/ArrayType.hpp b/include/xtypes/ArrayType.hpp
index f48512d..307009c 100644
--- a/include/xtypes/ArrayType.hpp
+++ b/include/xtypes/ArrayType.hpp
@@ -89,7 +89,7 @@ public:
         {
             content_ = DynamicType::Ptr(content);
         }
-        name_ = "array_" + std::to_string(dimension_) + "_" + content.name();
+        name_ = "array_" + std::to_string(dimension_) + "_" + content_->name();
     }
 
     /// \brief Dimension of the array.
-- 
2.43.0


From 3981202dcb4cc9729bf3823e5079b33bbdbb5bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:15 +0000
Subject: [PATCH 61/62] fix: a pair is named after the types it was given last

---
 include/xtypes/PairType.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/xtypes/PairType.hpp b/include/xtypes/PairType.hpp
index ab5d707..0cfe563 100644
--- a/include/xtypes/PairType.hpp
+++ b/include/xtypes/PairType.hpp
@@ -62,24 +62,28 @@ public:
             const DynamicType& first)
     {
         first_ = DynamicType::Ptr(first);
+        DynamicType::name(name(*first_, *second_));
     }
 
     void first(
             DynamicType&& first)
     {
         first_ = DynamicType::Ptr(std::move(first));
+        DynamicType::name(name(*first_, *second_));
     }
 
     void second(
             const DynamicType& second)
     {
         second_ = DynamicType::Ptr(second);
+        DynamicType::name(name(*first_, *second_));
     }
 
     void second(
             DynamicType&& second)
     {
         second_ = DynamicType::Ptr(std::move(second));
+        DynamicType::name(name(*first_, *second_));
     }
 
     size_t memory_size() const override
-- 
2.43.0


From 4e4bafdfabb3de926684c7703a1620a95995ecaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:51:23 +0000
Subject: [PATCH 62/62] fix: a module that refuses a type leaves its name as it
 was

---
 include/xtypes/idl/Module.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 70bb5b8..fd22487 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -231,6 +231,10 @@ public:
         auto result = structs_.emplace(
             name,
             Type(*this, struct_type));
+        if (!result.second)
+        {
+            struct_type.name(name); // Refused, it stays as it was.
+        }
         return result.second;
     }
 
@@ -315,6 +319,10 @@ public:
         auto result = unions_.emplace(
             name,
             Type(*this, union_type));
+        if (!result.second)
+        {
+            union_type.name(name); // Refused, it stays as it was.
+        }
         return result.second;
     }
 
@@ -589,7 +597,12 @@ public:
         std::string name = alias.name();
         std::string name_space = scope();
         alias.name(name_space + (name_space.empty() ? "" : "::") + name);
-        return aliases_.emplace(name, Type(*this, AliasType(alias))).second;
+        auto result = aliases_.emplace(name, Type(*this, AliasType(alias)));
+        if (!result.second)
+        {
+            alias.name(name); // Refused, it stays as it was.
+        }
+        return result.second;
     }
 
     bool add_alias(
-- 
2.43.0


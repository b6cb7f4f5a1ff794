From 707bf4e6fedde79db1785b186063c4ca335b3fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 01/22] fix: consume the size of a skipped CBOR item only once
 and check its availability

---
 lib/include/dots/serialization/formats/CborReader.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/include/dots/serialization/formats/CborReader.h b/lib/include/dots/serialization/formats/CborReader.h
index d45a63e..f80f8dd 100644
--- a/lib/include/dots/serialization/formats/CborReader.h
+++ b/lib/include/dots/serialization/formats/CborReader.h
@@ -211,6 +211,7 @@ namespace dots::serialization
             {
                 size_t value;
                 uint8_t numBytes = get_num_bytes();
+                assertInputAvailable(numBytes);
 
                 if (additionalInformation <= cbor_t::AdditionalInformation::MaxInplaceValue)
                 {
@@ -226,8 +227,6 @@ namespace dots::serialization
                     }
                 }
 
-                consume(numBytes);
-
                 return value;
             };
 
-- 
2.43.0


From c0de99a4c62e0e188f7771ff556d97f3388f4fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 02/22] fix: reject unsupported CBOR major types when skipping
 instead of leaving their content unconsumed

---
 lib/include/dots/serialization/formats/CborReader.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/include/dots/serialization/formats/CborReader.h b/lib/include/dots/serialization/formats/CborReader.h
index f80f8dd..3f20fca 100644
--- a/lib/include/dots/serialization/formats/CborReader.h
+++ b/lib/include/dots/serialization/formats/CborReader.h
@@ -265,6 +265,10 @@ namespace dots::serialization
                     }
                 }
             }
+            else
+            {
+                throwException("encountered unsupported major type", majorType);
+            }
         }
 
     private:
-- 
2.43.0


From 3988c2756817134e862ca79022e86e6655df031c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 03/22] fix: check input availability before peeking at the
 head of a signed CBOR integer

---
 lib/include/dots/serialization/formats/CborReader.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/include/dots/serialization/formats/CborReader.h b/lib/include/dots/serialization/formats/CborReader.h
index 3f20fca..98063b6 100644
--- a/lib/include/dots/serialization/formats/CborReader.h
+++ b/lib/include/dots/serialization/formats/CborReader.h
@@ -66,6 +66,7 @@ namespace dots::serialization
         void read(T& value)
         {
             using unsigned_t = std::make_unsigned_t<T>;
+            assertInputAvailable(1);
 
             if (uint8_t majorType = *inputData() & cbor_t::MajorType::Mask; majorType == cbor_t::MajorType::SignedInt)
             {
-- 
2.43.0


From 4d3a12712ba995d5dd97b036a6b05bb2d4021c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 04/22] fix: reject CBOR integers that exceed the range of the
 signed type they are read into

---
 lib/include/dots/serialization/formats/CborReader.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/include/dots/serialization/formats/CborReader.h b/lib/include/dots/serialization/formats/CborReader.h
index 98063b6..95c243a 100644
--- a/lib/include/dots/serialization/formats/CborReader.h
+++ b/lib/include/dots/serialization/formats/CborReader.h
@@ -71,11 +71,13 @@ namespace dots::serialization
             if (uint8_t majorType = *inputData() & cbor_t::MajorType::Mask; majorType == cbor_t::MajorType::SignedInt)
             {
                 unsigned_t unsignedValue = readHead<unsigned_t>(cbor_t::MajorType::SignedInt);
+                assertSignedRange<T>(unsignedValue);
                 value = -1 - reinterpret_cast<const T&>(unsignedValue);
             }
             else
             {
                 unsigned_t unsignedValue = readHead<unsigned_t>(cbor_t::MajorType::UnsignedInt);
+                assertSignedRange<T>(unsignedValue);
                 value = reinterpret_cast<const T&>(unsignedValue);
             }
         }
@@ -288,6 +290,15 @@ namespace dots::serialization
             }
         }
 
+        template <typename T>
+        void assertSignedRange(std::make_unsigned_t<T> value) const
+        {
+            if (value > static_cast<std::make_unsigned_t<T>>(std::numeric_limits<T>::max()))
+            {
+                throwException("encountered value exceeds signed value range", std::to_string(value));
+            }
+        }
+
         uint8_t readByte()
         {
             return *inputData()++;
-- 
2.43.0


From 7be1c857f7316762c298b91b0b67e3dc137876ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 05/22] fix: reject CBOR simple values when reading floats
 instead of reading past their head

---
 lib/include/dots/serialization/formats/CborReader.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/serialization/formats/CborReader.h b/lib/include/dots/serialization/formats/CborReader.h
index 95c243a..246183b 100644
--- a/lib/include/dots/serialization/formats/CborReader.h
+++ b/lib/include/dots/serialization/formats/CborReader.h
@@ -167,10 +167,14 @@ namespace dots::serialization
                         value = static_cast<T>(static_cast<bool>(sign) ? -float64 : float64);
                     }
                 }
-                else/* if (numBytes == sizeof(float))*/
+                else if (numBytes == sizeof(float))
                 {
                     value = static_cast<T>(readPunnedContingentBytes<float>());
                 }
+                else
+                {
+                    throwException("encountered unexpected simple value when deserializing float", additionalInformation);
+                }
             }
         }
 
-- 
2.43.0


From 9219ffe4854a1e714443d7bb8eb23c1d2c1c664c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 06/22] fix: do not include the byte past the input in CBOR
 reader exceptions

---
 lib/src/serialization/formats/CborReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/serialization/formats/CborReader.cpp b/lib/src/serialization/formats/CborReader.cpp
index f12c6f8..5591265 100644
--- a/lib/src/serialization/formats/CborReader.cpp
+++ b/lib/src/serialization/formats/CborReader.cpp
@@ -35,7 +35,7 @@ namespace dots::serialization
         throw SerializerException{msg,
                                   details,
                                   offset,
-                                  std::span(inputDataBegin(), inputDataEnd() + 1)};
+                                  std::span(inputDataBegin(), inputDataEnd())};
     }
 
 }
\ No newline at end of file
-- 
2.43.0


From 52842c2c290275120e0e78adb44032496d19a772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 07/22] fix: expect the begin marker when reading the begin of
 an indefinite CBOR map

---
 lib/include/dots/serialization/formats/CborReader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/dots/serialization/formats/CborReader.h b/lib/include/dots/serialization/formats/CborReader.h
index 246183b..e2fc455 100644
--- a/lib/include/dots/serialization/formats/CborReader.h
+++ b/lib/include/dots/serialization/formats/CborReader.h
@@ -39,7 +39,7 @@ namespace dots::serialization
 
         void readMapBegin()
         {
-            readHead(cbor_t::MajorType::IndefiniteMapBreak);
+            readHead(cbor_t::MajorType::IndefiniteMap);
         }
 
         void readMapEnd()
-- 
2.43.0


From 1c31fbeb84c8aae57ff077386dc9b1bfddc5bc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 08/22] fix: move-construct a type-erased struct value instead
 of copying only its descriptor

StructDescriptor::construct(Typeless&, Typeless&&) passed a non-const lvalue
on, which selected the StaticDescriptor::construct<T, Args...> template and left
the property area of the new instance uninitialised.
---
 lib/src/type/StructDescriptor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/type/StructDescriptor.cpp b/lib/src/type/StructDescriptor.cpp
index 4db3bfe..1085e6e 100644
--- a/lib/src/type/StructDescriptor.cpp
+++ b/lib/src/type/StructDescriptor.cpp
@@ -68,7 +68,7 @@ namespace dots::type
 
     Typeless& StructDescriptor::construct(Typeless& value, Typeless&& other) const
     {
-        return Typeless::From(construct(value.to<Struct>(), other.to<Struct>()));
+        return Typeless::From(construct(value.to<Struct>(), std::move(other).to<Struct>()));
     }
 
     Struct& StructDescriptor::construct(Struct& instance, Struct&& other) const
-- 
2.43.0


From 84a3d9b76e552b40ee2a5d801dac9fe7f632942d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:05 +0000
Subject: [PATCH 09/22] fix: convert struct descriptor data without properties

The null pointer to the last property was dereferenced when the (remotely
supplied) descriptor data has an empty property list.
---
 lib/src/io/DescriptorConverter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/io/DescriptorConverter.cpp b/lib/src/io/DescriptorConverter.cpp
index 1687fd0..0607816 100644
--- a/lib/src/io/DescriptorConverter.cpp
+++ b/lib/src/io/DescriptorConverter.cpp
@@ -109,7 +109,9 @@ namespace dots::io
             alignment = std::max(last->valueDescriptor().alignment(), alignment);
         }
 
-        size_t size = type::PropertyOffset::Next(alignment, last->offset(), last->valueDescriptor().size());
+        size_t size = last == nullptr ?
+            type::PropertyOffset::First(alignment, sizeof(type::PropertyArea)) :
+            type::PropertyOffset::Next(alignment, last->offset(), last->valueDescriptor().size());
 
         return m_registry.get().registerType<type::Descriptor<type::DynamicStruct>>(*structData.name, flags, propertyDescriptors, sizeof(type::DynamicStruct) + size);
     }
-- 
2.43.0


From 1e17326fa3a9d73e7444265d3d733cb0d46c8c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:05 +0000
Subject: [PATCH 10/22] fix: reject struct descriptor data with ambiguous or
 out of range tags

Two properties with the same tag share a validity bit, so the second one was
used and destroyed without ever having been constructed. Tags beyond the size
of a property set resulted in an undefined shift.
---
 lib/src/io/DescriptorConverter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/src/io/DescriptorConverter.cpp b/lib/src/io/DescriptorConverter.cpp
index 0607816..270d9d6 100644
--- a/lib/src/io/DescriptorConverter.cpp
+++ b/lib/src/io/DescriptorConverter.cpp
@@ -52,9 +52,17 @@ namespace dots::io
         }
 
         const type::PropertyDescriptor* last = nullptr;
+        type::PropertySet properties;
 
         for (const StructPropertyData& propertyData : *structData.properties)
         {
+            if (*propertyData.tag >= type::PropertySet::MaxProperties || type::PropertySet::FromIndex(*propertyData.tag) <= properties)
+            {
+                throw std::logic_error{ "invalid property tag: " + *structData.name + "." + *propertyData.name };
+            }
+
+            properties += type::PropertySet::FromIndex(*propertyData.tag);
+
             type::Descriptor<>* descriptor = m_registry.get().findType(*propertyData.type);
 
             if (descriptor == nullptr)
-- 
2.43.0


From 92e0abf9c212493c4087576240387c680698fdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:05 +0000
Subject: [PATCH 11/22] fix: allocate the whole property area for dynamic
 vectors of static structs

The dynamic element type was created with the size of the static struct, which
is smaller than the dynamic one by the size difference of the instance header,
so properties at the end of an element were written out of bounds.
---
 lib/src/io/DescriptorConverter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/io/DescriptorConverter.cpp b/lib/src/io/DescriptorConverter.cpp
index 270d9d6..4e29089 100644
--- a/lib/src/io/DescriptorConverter.cpp
+++ b/lib/src/io/DescriptorConverter.cpp
@@ -91,7 +91,7 @@ namespace dots::io
                     if (auto* dynStructDescriptor = valueTypeDescriptor->as<type::Descriptor<type::DynamicStruct>>(); dynStructDescriptor == nullptr)
                     {
                         const auto& staticStructDescriptor = valueTypeDescriptor->to<type::StructDescriptor>();
-                        auto dynStructDescriptor_ = type::make_descriptor<type::Descriptor<type::DynamicStruct>>(staticStructDescriptor.name(), staticStructDescriptor.flags(), staticStructDescriptor.propertyDescriptors(), staticStructDescriptor.size());
+                        auto dynStructDescriptor_ = type::make_descriptor<type::Descriptor<type::DynamicStruct>>(staticStructDescriptor.name(), staticStructDescriptor.flags(), staticStructDescriptor.propertyDescriptors(), sizeof(type::DynamicStruct) + staticStructDescriptor.size() - staticStructDescriptor.areaOffset());
                         descriptor = &m_registry.get().registerType<type::Descriptor<vector_t<type::DynamicStruct>>>(*dynStructDescriptor_, false);
                     }
                     else
-- 
2.43.0


From 8ae24dec470c40b72acb673a00d16cc3b67e6257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:55 +0000
Subject: [PATCH 12/22] fix: Container::insert/remove lost the cached instance
 when the header carries no attributes

---
 lib/src/Container.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/src/Container.cpp b/lib/src/Container.cpp
index d6031bf..9cb0d3e 100644
--- a/lib/src/Container.cpp
+++ b/lib/src/Container.cpp
@@ -155,11 +155,12 @@ namespace dots
         }
         else
         {
+            const property_set_t includedSet = *header.attributes;
             node_t node = m_instances.extract(itLower);
             type::Struct& existing = node.key();
             DotsCloneInformation& cloneInfo = node.mapped();
 
-            updateWithoutKeys(existing, instance, *header.attributes);
+            updateWithoutKeys(existing, instance, includedSet);
             cloneInfo.lastOperation = DotsMt::update;
             cloneInfo.lastUpdateFrom = header.sender;
             cloneInfo.modified = header.sentTime;
@@ -173,14 +174,16 @@ namespace dots
 
     auto Container<type::Struct>::remove(const DotsHeader& header, const type::Struct& instance) & -> node_t
     {
-        node_t node = m_instances.extract(instance);
+        node_t node;
 
-        if (!node.empty())
+        if (auto it = m_instances.find(instance); it != m_instances.end())
         {
+            const property_set_t includedSet = *header.attributes;
+            node = m_instances.extract(it);
             type::Struct& removed = node.key();
             DotsCloneInformation& cloneInfo = node.mapped();
 
-            updateWithoutKeys(removed, instance, *header.attributes);
+            updateWithoutKeys(removed, instance, includedSet);
             cloneInfo.lastOperation = DotsMt::remove;
             cloneInfo.lastUpdateFrom = header.sender;
             cloneInfo.modified = header.sentTime;
-- 
2.43.0


From 30c4e34bb347bc6c497699f72ddee899f531c5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:06 +0000
Subject: [PATCH 13/22] fix: ContainerPool::remove left a dangling entry in the
 name cache

---
 lib/src/ContainerPool.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/ContainerPool.cpp b/lib/src/ContainerPool.cpp
index 0cfa3c0..802b8e3 100644
--- a/lib/src/ContainerPool.cpp
+++ b/lib/src/ContainerPool.cpp
@@ -127,6 +127,11 @@ namespace dots
             throw std::runtime_error{ "container pool does not contain an element for the given type: " + descriptor.name() };
         }
 
+        if (auto it = m_nameCache.find(descriptor.name()); it != m_nameCache.end() && it->second == &node.mapped())
+        {
+            m_nameCache.erase(it);
+        }
+
         return node;
     }
 
-- 
2.43.0


From 8396bc90bb257d58798fd83eb9e7e7afd69c7379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:05 +0000
Subject: [PATCH 14/22] fix: Dispatcher nested dispatch invoked or destroyed
 removed handlers

A nested dispatch reset the id of the currently dispatching handler, so
that a handler removing itself afterwards was destroyed while the outer
dispatch was still iterating over it. Handlers that removed themselves
before a nested dispatch were invoked again or never removed.
---
 lib/include/dots/Dispatcher.h |  2 +-
 lib/src/Dispatcher.cpp        | 51 ++++++++++++++++++++++++++++-------
 2 files changed, 43 insertions(+), 10 deletions(-)

diff --git a/lib/include/dots/Dispatcher.h b/lib/include/dots/Dispatcher.h
index 86c61fa..8502405 100644
--- a/lib/include/dots/Dispatcher.h
+++ b/lib/include/dots/Dispatcher.h
@@ -347,7 +347,7 @@ namespace dots
         template <typename Handlers, typename Dispatchable>
         void dispatchToHandlers(const type::StructDescriptor& descriptor, Handlers& handlers, const Dispatchable& dispatchable);
 
-        std::optional<id_t> m_currentlyDispatchingId;
+        std::vector<id_t> m_dispatchingIds;
         std::vector<id_t> m_removeIds;
         ContainerPool m_containerPool;
         transmission_handler_pool_t m_transmissionHandlerPool;
diff --git a/lib/src/Dispatcher.cpp b/lib/src/Dispatcher.cpp
index e3d5070..1fbcc56 100644
--- a/lib/src/Dispatcher.cpp
+++ b/lib/src/Dispatcher.cpp
@@ -1,9 +1,26 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #include <dots/Dispatcher.h>
+#include <algorithm>
 
 namespace dots
 {
+    namespace
+    {
+        bool contains(const std::vector<Dispatcher::id_t>& ids, Dispatcher::id_t id)
+        {
+            return std::find(ids.begin(), ids.end(), id) != ids.end();
+        }
+
+        struct dispatching_id_guard
+        {
+            dispatching_id_guard(std::vector<Dispatcher::id_t>& ids, Dispatcher::id_t id) : m_ids(ids) { m_ids.emplace_back(id); }
+            ~dispatching_id_guard() { m_ids.pop_back(); }
+
+            std::vector<Dispatcher::id_t>& m_ids;
+        };
+    }
+
     Dispatcher::Dispatcher(error_handler_t handler) :
         m_nextId(0),
         m_errorHandler{ std::move(handler) }
@@ -110,9 +127,12 @@ namespace dots
 
             if (auto itHandler = handlers.find(id); itHandler != handlers.end())
             {
-                if (id == m_currentlyDispatchingId)
+                if (contains(m_dispatchingIds, id))
                 {
-                    m_removeIds.emplace_back(id);
+                    if (!contains(m_removeIds, id))
+                    {
+                        m_removeIds.emplace_back(id);
+                    }
                 }
                 else
                 {
@@ -186,24 +206,37 @@ namespace dots
     {
         for (const auto& [id, handler] : handlers)
         {
+            if (contains(m_removeIds, id))
+            {
+                continue;
+            }
+
+            dispatching_id_guard dispatchingId{ m_dispatchingIds, id };
+
             try
             {
-                m_currentlyDispatchingId = id;
                 handler(dispatchable);
             }
             catch (...)
             {
                 m_errorHandler(descriptor, std::current_exception());
             }
-
-            m_currentlyDispatchingId = std::nullopt;
         }
 
-        for (id_t id : m_removeIds)
+        // note: handlers that removed themselves (or were removed by a nested
+        // dispatch) can only be destroyed when no outer dispatch is still
+        // using them
+        std::vector<typename Handlers::node_type> removedHandlers;
+
+        m_removeIds.erase(std::remove_if(m_removeIds.begin(), m_removeIds.end(), [&](id_t id)
         {
-            handlers.erase(id);
-        }
+            if (contains(m_dispatchingIds, id) || handlers.count(id) == 0)
+            {
+                return false;
+            }
 
-        m_removeIds.clear();
+            removedHandlers.emplace_back(handlers.extract(id));
+            return true;
+        }), m_removeIds.end());
     }
 }
-- 
2.43.0


From d2243339b326fa03c5b8b8960257bf29561dbec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:45 +0000
Subject: [PATCH 15/22] fix: Dispatcher events referred to instances destroyed
 by a nested dispatch

Removing an instance from within an event handler destroyed it although
the remaining handlers of the outer dispatch still referred to it. The
same applied to the initial replay of cached instances when adding an
event handler, which in addition iterated over the modified container.
---
 lib/include/dots/Dispatcher.h |  2 ++
 lib/src/Dispatcher.cpp        | 38 ++++++++++++++++++++++++++++++++---
 2 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/lib/include/dots/Dispatcher.h b/lib/include/dots/Dispatcher.h
index 8502405..5e7bc2c 100644
--- a/lib/include/dots/Dispatcher.h
+++ b/lib/include/dots/Dispatcher.h
@@ -349,6 +349,8 @@ namespace dots
 
         std::vector<id_t> m_dispatchingIds;
         std::vector<id_t> m_removeIds;
+        std::vector<Container<>::node_t> m_removedInstances;
+        size_t m_removedInstancesUsers = 0;
         ContainerPool m_containerPool;
         transmission_handler_pool_t m_transmissionHandlerPool;
         event_handler_pool_t m_eventHandlerPool;
diff --git a/lib/src/Dispatcher.cpp b/lib/src/Dispatcher.cpp
index 1fbcc56..75f9ec1 100644
--- a/lib/src/Dispatcher.cpp
+++ b/lib/src/Dispatcher.cpp
@@ -19,6 +19,15 @@ namespace dots
 
             std::vector<Dispatcher::id_t>& m_ids;
         };
+
+        struct removed_instances_guard
+        {
+            removed_instances_guard(std::vector<Container<>::node_t>& removedInstances, size_t& users) : m_removedInstances(removedInstances), m_users(users) { ++m_users; }
+            ~removed_instances_guard() { if (--m_users == 0) m_removedInstances.clear(); }
+
+            std::vector<Container<>::node_t>& m_removedInstances;
+            size_t& m_users;
+        };
     }
 
     Dispatcher::Dispatcher(error_handler_t handler) :
@@ -88,10 +97,27 @@ namespace dots
                 .isFromMyself = false
             };
 
-            for (const auto& [instance, cloneInfo] : container)
+            // note: the handler might dispatch further transmissions, which can
+            // remove instances from the container
+            removed_instances_guard removedInstances{ m_removedInstances, m_removedInstancesUsers };
+            std::vector<const Container<>::value_t*> clones;
+
+            for (const auto& clone : container)
             {
-                header.attributes = instance->_validProperties();
+                clones.emplace_back(&clone);
+            }
+
+            for (const Container<>::value_t* clone : clones)
+            {
+                const auto& [instance, cloneInfo] = *clone;
                 --*header.fromCache;
+
+                if (container.findClone(instance) != clone)
+                {
+                    continue;
+                }
+
+                header.attributes = instance->_validProperties();
                 handler_(Event<>{ header, instance, instance, cloneInfo, DotsMt::create });
             }
         }
@@ -163,6 +189,10 @@ namespace dots
 
     void Dispatcher::dispatchEvent(const DotsHeader& header, const type::AnyStruct& instance)
     {
+        // note: instances that are removed by a nested dispatch have to be kept
+        // as long as they might be referenced by an outer event
+        removed_instances_guard removedInstances{ m_removedInstances, m_removedInstancesUsers };
+
         const type::StructDescriptor& descriptor = instance->_descriptor();
         event_handlers_t& handlers = m_eventHandlerPool[&descriptor];
 
@@ -174,7 +204,9 @@ namespace dots
             {
                 if (Container<>::node_t removed = container.remove(header, instance); !removed.empty())
                 {
-                    dispatchToHandlers(descriptor, handlers, Event<>{ header, instance, removed.key(), removed.mapped() });
+                    const auto& [key, cloneInfo] = std::tie(removed.key(), removed.mapped());
+                    m_removedInstances.emplace_back(std::move(removed));
+                    dispatchToHandlers(descriptor, handlers, Event<>{ header, instance, key, cloneInfo });
                 }
             }
             else
-- 
2.43.0


From 1a0bc3b1df8a7ba5d9996faf0fb7bc351d2e6fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:21 +0000
Subject: [PATCH 16/22] fix: TypeVisitor did not restore its visiting level
 when a visit threw

---
 lib/include/dots/type/TypeVisitor.h | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/lib/include/dots/type/TypeVisitor.h b/lib/include/dots/type/TypeVisitor.h
index 11505d7..49c7d31 100644
--- a/lib/include/dots/type/TypeVisitor.h
+++ b/lib/include/dots/type/TypeVisitor.h
@@ -37,6 +37,7 @@ namespace dots::type
         template <typename T, std::enable_if_t<std::is_base_of_v<Struct, T>, int> = 0>
         void visit(const T& instance, PropertySet includedProperties)
         {
+            VisitingLevelGuard levelGuard{ m_constVisitingLevel };
             visitBegin<true>();
             visitStructInternal<true, T>(instance, includedProperties);
             visitEnd<true>();
@@ -45,6 +46,7 @@ namespace dots::type
         template <typename T, std::enable_if_t<std::is_base_of_v<Struct, T>, int> = 0>
         void visit(T& instance, PropertySet includedProperties)
         {
+            VisitingLevelGuard levelGuard{ m_nonConstVisitingLevel };
             visitBegin<false>();
             visitStructInternal<false, T>(instance, includedProperties);
             visitEnd<false>();
@@ -53,6 +55,7 @@ namespace dots::type
         template <typename T, std::enable_if_t<is_property_v<T>, int> = 0>
         void visit(const T& property, bool first = true)
         {
+            VisitingLevelGuard levelGuard{ m_constVisitingLevel };
             visitBegin<true>();
             visitPropertyInternal<true, T>(property, first);
             visitEnd<true>();
@@ -61,6 +64,7 @@ namespace dots::type
         template <typename T, std::enable_if_t<is_property_v<T>, int> = 0>
         void visit(T& property, bool first = true)
         {
+            VisitingLevelGuard levelGuard{ m_nonConstVisitingLevel };
             visitBegin<false>();
             visitPropertyInternal<false, T>(property, first);
             visitEnd<false>();
@@ -69,6 +73,7 @@ namespace dots::type
         template <typename T>
         void visit(const T& value, const Descriptor<T>& descriptor)
         {
+            VisitingLevelGuard levelGuard{ m_constVisitingLevel };
             visitBegin<true>();
             visitTypeInternal<true>(value, descriptor);
             visitEnd<true>();
@@ -77,6 +82,7 @@ namespace dots::type
         template <typename T>
         void visit(T& value, const Descriptor<T>& descriptor)
         {
+            VisitingLevelGuard levelGuard{ m_nonConstVisitingLevel };
             visitBegin<false>();
             visitTypeInternal<false>(value, descriptor);
             visitEnd<false>();
@@ -85,6 +91,7 @@ namespace dots::type
         template <typename... Ts, std::enable_if_t<std::conjunction_v<std::negation<is_property<Ts>>...>, int> = 0>
         void visit(const Ts&... values)
         {
+            VisitingLevelGuard levelGuard{ m_constVisitingLevel };
             visitBegin<true>();
             visitTypeInternal<true, Ts...>(values...);
             visitEnd<true>();
@@ -93,6 +100,7 @@ namespace dots::type
         template <typename... Ts, std::enable_if_t<std::conjunction_v<std::negation<std::is_const<Ts>>..., std::negation<is_property<Ts>>...>, int> = 0>
         void visit(Ts&... values)
         {
+            VisitingLevelGuard levelGuard{ m_nonConstVisitingLevel };
             visitBegin<false>();
             visitTypeInternal<false, Ts...>(values...);
             visitEnd<false>();
@@ -196,6 +204,20 @@ namespace dots::type
 
     private:
 
+        // restores the visiting level when a visit is left by an exception
+        struct VisitingLevelGuard
+        {
+            explicit VisitingLevelGuard(size_t& level) : m_level(level), m_previousLevel(level) {}
+            VisitingLevelGuard(const VisitingLevelGuard&) = delete;
+            VisitingLevelGuard& operator = (const VisitingLevelGuard&) = delete;
+            ~VisitingLevelGuard() { m_level = m_previousLevel; }
+
+        private:
+
+            size_t& m_level;
+            size_t m_previousLevel;
+        };
+
         template <bool Condition, typename U>
         using const_t = std::conditional_t<Condition, std::add_const_t<U>, U>;
 
-- 
2.43.0


From ab0137c2a4954d16e32aa4fd18211dc39b41653f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:21 +0000
Subject: [PATCH 17/22] fix: CborSerializer allocated vectors of arbitrary size
 from the element count of the input

---
 lib/include/dots/serialization/CborSerializer.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/serialization/CborSerializer.h b/lib/include/dots/serialization/CborSerializer.h
index 6046334..286ac28 100644
--- a/lib/include/dots/serialization/CborSerializer.h
+++ b/lib/include/dots/serialization/CborSerializer.h
@@ -133,7 +133,15 @@ namespace dots::serialization
         template <typename T>
         bool visitVectorBeginDerived(vector_t<T>& vector, const type::Descriptor<vector_t<T>>& descriptor)
         {
-            descriptor.fill(vector, reader().readArraySize());
+            size_t numElements = reader().readArraySize();
+
+            // every element takes at least one byte
+            if (numElements > reader().inputAvailable())
+            {
+                throw std::runtime_error{ "array size exceeds available input: " + std::to_string(numElements) };
+            }
+
+            descriptor.fill(vector, numElements);
             return true;
         }
 
-- 
2.43.0


From 1d275b9c8a4609f844293a2fe11aebf37561ff42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:21 +0000
Subject: [PATCH 18/22] fix: HostTransceiver::transmit() used connections that
 were destroyed while handling errors of others

---
 lib/src/HostTransceiver.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/src/HostTransceiver.cpp b/lib/src/HostTransceiver.cpp
index 3b556ec..2d6cb58 100644
--- a/lib/src/HostTransceiver.cpp
+++ b/lib/src/HostTransceiver.cpp
@@ -86,7 +86,9 @@ namespace dots
 
     void HostTransceiver::transmit(const io::Transmission& transmission)
     {
-        using dirty_connection_t = std::pair<Connection*, std::exception_ptr>;
+        // note: the connections have to be kept alive, because handling the error
+        // of one connection can also cause other connections to be closed
+        using dirty_connection_t = std::pair<connection_ptr_t, std::exception_ptr>;
         std::vector<dirty_connection_t> dirtyConnections;
 
         for (Connection* destinationConnection : m_groups[*transmission.header().typeName])
@@ -99,7 +101,7 @@ namespace dots
                 }
                 catch (...)
                 {
-                    dirtyConnections.emplace_back(destinationConnection, std::current_exception());
+                    dirtyConnections.emplace_back(m_guestConnections.find(destinationConnection)->second, std::current_exception());
                 }
             }
         }
@@ -108,7 +110,10 @@ namespace dots
         {
             for (const auto& [connection, e] : dirtyConnections)
             {
-                connection->handleError(e);
+                if (!connection->closed())
+                {
+                    connection->handleError(e);
+                }
             }
         }
     }
-- 
2.43.0


From bf6d74ae078f73cc9e1222e4ce4f15d722439206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:21 +0000
Subject: [PATCH 19/22] fix: HostTransceiver used instances that were destroyed
 while removing others

---
 lib/src/HostTransceiver.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/lib/src/HostTransceiver.cpp b/lib/src/HostTransceiver.cpp
index 2d6cb58..2ef0611 100644
--- a/lib/src/HostTransceiver.cpp
+++ b/lib/src/HostTransceiver.cpp
@@ -194,7 +194,9 @@ namespace dots
                     group.erase(&connection);
                 }
 
-                std::vector<const type::Struct*> cleanupInstances;
+                // note: the instances have to be copied, because removing one
+                // instance can also cause other instances to be removed
+                std::vector<type::AnyStruct> cleanupInstances;
 
                 for (const auto& [descriptor, container] : pool())
                 {
@@ -204,15 +206,18 @@ namespace dots
                         {
                             if (connection.peerId() == cloneInfo.lastUpdateFrom)
                             {
-                                cleanupInstances.emplace_back(&*instance);
+                                cleanupInstances.emplace_back(instance);
                             }
                         }
                     }
                 }
 
-                for (const type::Struct* instance : cleanupInstances)
+                for (const type::AnyStruct& instance : cleanupInstances)
                 {
-                    remove(*instance);
+                    if (container(instance->_descriptor()).find(instance) != nullptr)
+                    {
+                        remove(instance);
+                    }
                 }
 
                 m_guestConnections.erase(&connection);
@@ -306,17 +311,22 @@ namespace dots
         {
             if (std::find(typeNames.begin(), typeNames.end(), container.descriptor().name()) != typeNames.end())
             {
-                std::vector<const type::Struct*> removeInstances;
+                // note: the instances have to be copied, because removing one
+                // instance can also cause other instances to be removed
+                std::vector<type::AnyStruct> removeInstances;
 
                 for (const auto& [instance, cloneInformation] : container)
                 {
                     (void)cloneInformation;
-                    removeInstances.emplace_back(&instance.get());
+                    removeInstances.emplace_back(instance);
                 }
 
-                for (const type::Struct* instance : removeInstances)
+                for (const type::AnyStruct& instance : removeInstances)
                 {
-                    remove(*instance);
+                    if (container.find(instance) != nullptr)
+                    {
+                        remove(instance);
+                    }
                 }
             }
         }
-- 
2.43.0


From 7bda35ffe1c332a2f10f61d8a82b4231769cde2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:05 +0000
Subject: [PATCH 20/22] fix: Connection failed to close with exceptions that
 are not derived from std::exception

---
 lib/src/Connection.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lib/src/Connection.cpp b/lib/src/Connection.cpp
index 7674f23..e10fd58 100644
--- a/lib/src/Connection.cpp
+++ b/lib/src/Connection.cpp
@@ -223,6 +223,20 @@ namespace dots
                 }
 
             }
+            catch (...)
+            {
+                try
+                {
+                    transmit(DotsMsgError{
+                        .errorCode = 1,
+                        .errorText = "<unknown error>"
+                    });
+                }
+                catch (...)
+                {
+                    /* do nothing */
+                }
+            }
         }
 
         handleClose(ePtr);
@@ -460,6 +474,10 @@ namespace dots
                     {
                         LOG_ERROR_S(peerDescription() << " closed connection with error -> " << e.what());
                     }
+                    catch (...)
+                    {
+                        LOG_ERROR_S(peerDescription() << " closed connection with error -> <unknown error>");
+                    }
                 }
             }
         }
-- 
2.43.0


From c0904f933b9a0b83b31c0ece35b6a66bf5af3e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:05 +0000
Subject: [PATCH 21/22] fix: Connection of a guest ignored that the host did
 not accept it

---
 lib/src/Connection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/Connection.cpp b/lib/src/Connection.cpp
index e10fd58..e03f35a 100644
--- a/lib/src/Connection.cpp
+++ b/lib/src/Connection.cpp
@@ -352,6 +352,11 @@ namespace dots
 
     void Connection::handleAuthorizationRequest(const DotsMsgConnectResponse& connectResponse)
     {
+        if (connectResponse.accepted == false)
+        {
+            throw std::runtime_error{ "host did not accept the connection" };
+        }
+
         m_selfId = *connectResponse.clientId;
 
         if (connectResponse.preload == true)
-- 
2.43.0


From aab8c1d64ccb4f90a3ef8fa174ea2b35e8e817cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:05 +0000
Subject: [PATCH 22/22] fix: Connection called a missing transition handler
 when destroyed before it was started

---
 lib/src/Connection.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/Connection.cpp b/lib/src/Connection.cpp
index e03f35a..d3aa48f 100644
--- a/lib/src/Connection.cpp
+++ b/lib/src/Connection.cpp
@@ -493,7 +493,10 @@ namespace dots
 
         try
         {
-            (*m_transitionHandler)(*this, e);
+            if (m_transitionHandler != std::nullopt)
+            {
+                (*m_transitionHandler)(*this, e);
+            }
         }
         catch (const std::exception& e)
         {
-- 
2.43.0


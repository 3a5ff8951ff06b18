From f3a762dab4ec9f5003885082b85772767c6c052f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 01/55] fix: Value::Deserialize overran the buffer when the
 length field wraps

---
 Value.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Value.cpp b/Value.cpp
index 5e57d5c..c1b811b 100644
--- a/Value.cpp
+++ b/Value.cpp
@@ -24,7 +24,7 @@ uint32_t DowowNetwork::Value::Deserialize(const char* data, uint32_t length) {
         le32toh(*reinterpret_cast<const uint32_t*>(data + 1));
     
     // checking length
-    if (len + 5 > length) return 0;
+    if (len > length - 5) return 0;
 
     // calling the derived deserializer
     return DeserializeInternal(data + 5, len) + 5;
-- 
2.43.0


From caaa918f9be1cdd89d93c0ba19dc20f269b82d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 02/55] fix: Value::Deserialize reported success when the
 content is ill-formed

---
 Value.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Value.cpp b/Value.cpp
index c1b811b..fd7e30d 100644
--- a/Value.cpp
+++ b/Value.cpp
@@ -27,7 +27,12 @@ uint32_t DowowNetwork::Value::Deserialize(const char* data, uint32_t length) {
     if (len > length - 5) return 0;
 
     // calling the derived deserializer
-    return DeserializeInternal(data + 5, len) + 5;
+    uint32_t used = DeserializeInternal(data + 5, len);
+
+    // only the undefined value is allowed to have no content
+    if (!used && (len || GetType() != ValueTypeUndefined)) return 0;
+
+    return used + 5;
 }
 
 const char* DowowNetwork::Value::Serialize() const {
-- 
2.43.0


From c4f5db97ec2e15722d1d7bdd1b87f19ef442a7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 03/55] fix: ValueUndefined kept or leaked its old data when
 deserialized again

---
 values/ValueUndefined.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/values/ValueUndefined.cpp b/values/ValueUndefined.cpp
index e5040b8..6d5a118 100644
--- a/values/ValueUndefined.cpp
+++ b/values/ValueUndefined.cpp
@@ -8,6 +8,11 @@ DowowNetwork::ValueUndefined::ValueUndefined() : Value(ValueTypeUndefined) {
 }
 
 uint32_t DowowNetwork::ValueUndefined::DeserializeInternal(const char* data, uint32_t length) {
+    // delete the old data
+    free(undefined_data);
+    undefined_data = 0;
+    undefined_data_length = 0;
+
     // no data at all
     if (length == 0) return 0;
 
-- 
2.43.0


From 7ab69249d966700dafe06d32662a3dfd6a965557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 04/55] fix: ValueUndefined::CopyFrom lost the data and overran
 the target

---
 values/ValueUndefined.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/values/ValueUndefined.cpp b/values/ValueUndefined.cpp
index 6d5a118..c09923b 100644
--- a/values/ValueUndefined.cpp
+++ b/values/ValueUndefined.cpp
@@ -39,11 +39,17 @@ std::string DowowNetwork::ValueUndefined::ToStringInternal(uint16_t indent) cons
     return "undefined[" + std::to_string(indent) + "]";
 }
 
-void DowowNetwork::ValueUndefined::CopyFrom(Value* original) {
-    if (undefined_data) free(undefined_data);
-    undefined_data =
-        malloc(static_cast<ValueUndefined*>(original)->undefined_data_length);
-    memcpy(undefined_data, static_cast<ValueUndefined*>(original)->undefined_data, undefined_data_length);
+void DowowNetwork::ValueUndefined::CopyFrom(Value* original_) {
+    ValueUndefined* original = static_cast<ValueUndefined*>(original_);
+    if (original == this) return;
+
+    free(undefined_data);
+    undefined_data = 0;
+    undefined_data_length = original->undefined_data_length;
+    if (undefined_data_length) {
+        undefined_data = malloc(undefined_data_length);
+        memcpy(undefined_data, original->undefined_data, undefined_data_length);
+    }
 }
 
 DowowNetwork::ValueUndefined::~ValueUndefined() {
-- 
2.43.0


From 26a289209b016b4d2da0b33e7938f61d70350b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 05/55] fix: a ValueStr that failed to deserialize kept a
 length without data

---
 values/ValueStr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/values/ValueStr.cpp b/values/ValueStr.cpp
index adb9631..bac2097 100644
--- a/values/ValueStr.cpp
+++ b/values/ValueStr.cpp
@@ -7,8 +7,8 @@ void DowowNetwork::ValueStr::DeleteBuffer() {
     if (str_data) {
         delete[] str_data;
         str_data = 0;
-        str_length = 0;
     }
+    str_length = 0;
 }
 
 DowowNetwork::ValueStr::ValueStr(std::string str) : Value(ValueTypeStr) {
@@ -30,7 +30,7 @@ uint32_t DowowNetwork::ValueStr::DeserializeInternal(const char* data, uint32_t
     str_length = le32toh(*reinterpret_cast<const uint32_t*>(data));
 
     // check if wrong length
-    if (length != str_length + 4) {
+    if (length - 4 != str_length) {
         DeleteBuffer();
         return 0;
     }
-- 
2.43.0


From 3b9836136184878b8b95dbe06b587aa4c07fa41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 06/55] fix: ValueArr read behind its content when
 deserializing

---
 values/ValueArr.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/values/ValueArr.cpp b/values/ValueArr.cpp
index 4c456b2..01b3aed 100644
--- a/values/ValueArr.cpp
+++ b/values/ValueArr.cpp
@@ -11,6 +11,9 @@ uint32_t DowowNetwork::ValueArr::DeserializeInternal(const char* data, uint32_t
     // delete the buffer
     Clear();
 
+    // can't even read the elements amount
+    if (length < 4) return 0;
+
     // read the elements amound
     uint32_t elements_amount = le32toh(*reinterpret_cast<const uint32_t*>(data));
 
@@ -22,7 +25,7 @@ uint32_t DowowNetwork::ValueArr::DeserializeInternal(const char* data, uint32_t
     // iterate
     for (uint32_t i = 0; i < elements_amount; i++) {
         // out of bounds - invalidate array
-        if (read_offset > length) {
+        if (read_offset >= length) {
             Clear();
             return 0;
         }
-- 
2.43.0


From 9fe1197967172f22ec2b7ad3c26a506fc996db81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 07/55] fix: ValueArr allocated memory for any announced amount
 of elements

---
 values/ValueArr.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/values/ValueArr.cpp b/values/ValueArr.cpp
index 01b3aed..e64aca0 100644
--- a/values/ValueArr.cpp
+++ b/values/ValueArr.cpp
@@ -17,6 +17,9 @@ uint32_t DowowNetwork::ValueArr::DeserializeInternal(const char* data, uint32_t
     // read the elements amound
     uint32_t elements_amount = le32toh(*reinterpret_cast<const uint32_t*>(data));
 
+    // each element takes 5 bytes at least
+    if (elements_amount > (length - 4) / 5) return 0;
+
     // reserve space
     array.reserve(elements_amount);
 
-- 
2.43.0


From 922cbd304cfc71cd620f779690856aed9a1f7043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 08/55] fix: Datum::Deserialize read outside of the buffer

---
 Datum.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Datum.cpp b/Datum.cpp
index db5abb7..006e554 100644
--- a/Datum.cpp
+++ b/Datum.cpp
@@ -66,8 +66,8 @@ uint32_t DowowNetwork::Datum::Deserialize(const char* data, uint32_t length) {
     // get the name length
     uint16_t name_length = le16toh(*reinterpret_cast<const uint16_t*>(data + 4));
 
-    // check if name length is greater than total_length
-    if (name_length > total_length) return 0;
+    // check if the name and the value metadata fit into total_length
+    if (total_length < 6 + name_length + 5) return 0;
 
     // create a Value of valid type with correct Deserialize() override
     Value* new_value = CreateValue(data[6 + name_length]);
-- 
2.43.0


From c8aae6bf5db6e90e3e20bcad7416645f479e4eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 09/55] fix: Request::Deserialize read the name from outside of
 the buffer

---
 Request.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Request.cpp b/Request.cpp
index dcc27ec..efd2bdf 100644
--- a/Request.cpp
+++ b/Request.cpp
@@ -103,7 +103,7 @@ uint32_t DowowNetwork::Request::Deserialize(char* data, uint32_t data_size) {
 
     // check if everything is valid
     if (des_total_length > data_size) return 0;
-    if (des_name_length > data_size) return 0;
+    if (des_total_length < 10 + des_name_length) return 0;
 
     // delete old datums
     for (auto i : arguments) delete i;
-- 
2.43.0


From ed96a835baec28f880d31a155e190d9cf93ce7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 10/55] fix: Request::Deserialize consumed bytes that follow
 the request

---
 Request.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Request.cpp b/Request.cpp
index efd2bdf..12e5f19 100644
--- a/Request.cpp
+++ b/Request.cpp
@@ -115,9 +115,9 @@ uint32_t DowowNetwork::Request::Deserialize(char* data, uint32_t data_size) {
 
     // deserialize datums
     uint32_t i = 10 + des_name_length;
-    while (i < data_size) {
+    while (i < des_total_length) {
         Datum* new_datum = new Datum();
-        uint32_t temp_res = new_datum->Deserialize(data + i, data_size - i);
+        uint32_t temp_res = new_datum->Deserialize(data + i, des_total_length - i);
         if (!temp_res) {
             delete new_datum;
             break;
-- 
2.43.0


From 423017fbd7d8580a07af43f14014603b6483a310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 11/55] fix: Datum::SetValue used its own value after deleting
 it

---
 Datum.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Datum.cpp b/Datum.cpp
index 006e554..e9b77c3 100644
--- a/Datum.cpp
+++ b/Datum.cpp
@@ -32,8 +32,11 @@ DowowNetwork::Value* DowowNetwork::Datum::GetValue() {
 }
 
 void DowowNetwork::Datum::SetValue(Value* value, bool to_copy) {
-    // delete the old value
-    delete this->value;
+    // the value is already here
+    if (value == this->value) return;
+
+    // delete the old value after copying, it may contain the new one
+    Value* old_value = this->value;
 
     // set the new value
     if (value) {
@@ -49,6 +52,8 @@ void DowowNetwork::Datum::SetValue(Value* value, bool to_copy) {
     else {
         this->value = new ValueUndefined();
     }
+
+    delete old_value;
 }
 
 uint32_t DowowNetwork::Datum::Deserialize(const char* data, uint32_t length) {
-- 
2.43.0


From b40147f24ab62afc86f11b1ce7cdbb9da3d3fc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 12/55] fix: ValueArr used own elements after deleting them
 when copying

---
 values/ValueArr.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/values/ValueArr.cpp b/values/ValueArr.cpp
index e64aca0..8afd8d4 100644
--- a/values/ValueArr.cpp
+++ b/values/ValueArr.cpp
@@ -107,11 +107,13 @@ bool DowowNetwork::ValueArr::Set(uint32_t index, Value* val) {
     if (index < 0 || index >= array.size()) return false;
     if (!val) return false;
 
-    delete array[index];
-
     // create a copy
-    array[index] = CreateValue(val->GetType());
-    array[index]->CopyFrom(val);
+    Value* copy = CreateValue(val->GetType());
+    copy->CopyFrom(val);
+
+    // the old element might be a part of the copied value
+    delete array[index];
+    array[index] = copy;
 
     return true;
 }
@@ -145,9 +147,18 @@ void DowowNetwork::ValueArr::Clear() {
 void DowowNetwork::ValueArr::CopyFrom(Value* original_) {
     ValueArr* original = static_cast<ValueArr*>(original_);
 
-    New(original->array.size());
-    for (size_t i = 0; i < array.size(); i++)
-        Set(i, original->Get(i));
+    if (original == this) return;
+
+    // the arrays might contain each other, copy before clearing
+    std::vector<Value*> copies;
+    copies.reserve(original->array.size());
+    for (auto i : original->array) {
+        copies.push_back(CreateValue(i->GetType()));
+        copies.back()->CopyFrom(i);
+    }
+
+    Clear();
+    array.swap(copies);
 }
 
 DowowNetwork::ValueArr::~ValueArr() {
-- 
2.43.0


From fa94de9ff9d6a72cd0622e69c17069939f4e8bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 13/55] fix: Request::Set did not delete the argument when the
 value is 0

---
 Request.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Request.cpp b/Request.cpp
index 12e5f19..2900a7d 100644
--- a/Request.cpp
+++ b/Request.cpp
@@ -26,7 +26,16 @@ uint32_t DowowNetwork::Request::GetId() const {
 }
 
 void DowowNetwork::Request::Set(std::string name, Value* value, bool to_copy) {
-    if (Get(name)) {
+    if (!value) {
+        // delete the argument
+        arguments.remove_if(
+            [&name](Datum* dat) {
+                if (dat->GetName() != name) return false;
+                delete dat;
+                return true;
+            }
+        );
+    } else if (Get(name)) {
         // argument is already set
         auto temp_iter = 
             std::find_if(
-- 
2.43.0


From 1d82f49cd311f04075fd8016f869313ccf74964e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 14/55] fix: Request::CopyFrom kept the old arguments

---
 Request.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/Request.cpp b/Request.cpp
index 2900a7d..6a73eb9 100644
--- a/Request.cpp
+++ b/Request.cpp
@@ -145,12 +145,19 @@ uint32_t DowowNetwork::Request::GetSize() const {
 }
 
 void DowowNetwork::Request::CopyFrom(const Request* original) {
+    if (original == this) return;
+
     SetName(original->GetName());
     SetId(original->GetId());
-    const auto& original_args = original->GetArguments();
+    // delete the old arguments
+    for (auto i : arguments) delete i;
+    arguments.clear();
     // copy the arguments
-    for (const auto& d: original_args) {
-        Set(d->GetName(), d->GetValue());
+    for (const auto& d: original->GetArguments()) {
+        Datum* new_dat = new Datum();
+        new_dat->SetName(d->GetName());
+        new_dat->SetValue(d->GetValue());
+        arguments.push_back(new_dat);
     }
 }
 
-- 
2.43.0


From 52a9e69dae71464e3ffc648cb35c1e2b954890fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 15/55] fix: Datum::GetValid ignored the documented rule for
 names

---
 Datum.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Datum.cpp b/Datum.cpp
index e9b77c3..b5953fb 100644
--- a/Datum.cpp
+++ b/Datum.cpp
@@ -11,8 +11,16 @@ DowowNetwork::Datum::Datum() {
 bool DowowNetwork::Datum::GetValid() const {
     // the datum is valid if:
     //    1. its value isn't 0
-    //    2. its name isn't empty
-    return !name.empty() && value;
+    //    2. its name has 1 to 32 characters
+    //    3. its name has only letters, digits, underscores and hyphens
+    return
+        value &&
+        !name.empty() &&
+        name.size() <= 32 &&
+        name.find_first_not_of(
+            "abcdefghijklmnopqrstuvwxyz"
+            "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
+            "0123456789_-") == std::string::npos;
 }
 
 std::string DowowNetwork::Datum::GetName() const {
-- 
2.43.0


From 2a69c527b2e6411c3f189e3ea14e40ea49b2645b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 16/55] fix: copying a ValueStr, ValueArr or ValueUndefined
 object freed its data twice

---
 values/ValueArr.cpp       | 9 +++++++++
 values/ValueArr.hpp       | 2 ++
 values/ValueStr.cpp       | 9 +++++++++
 values/ValueStr.hpp       | 2 ++
 values/ValueUndefined.cpp | 9 +++++++++
 values/ValueUndefined.hpp | 2 ++
 6 files changed, 33 insertions(+)

diff --git a/values/ValueArr.cpp b/values/ValueArr.cpp
index 8afd8d4..4cf47fd 100644
--- a/values/ValueArr.cpp
+++ b/values/ValueArr.cpp
@@ -161,6 +161,15 @@ void DowowNetwork::ValueArr::CopyFrom(Value* original_) {
     array.swap(copies);
 }
 
+DowowNetwork::ValueArr::ValueArr(const ValueArr& original) : ValueArr() {
+    CopyFrom(const_cast<ValueArr*>(&original));
+}
+
+DowowNetwork::ValueArr& DowowNetwork::ValueArr::operator=(const ValueArr& original) {
+    CopyFrom(const_cast<ValueArr*>(&original));
+    return *this;
+}
+
 DowowNetwork::ValueArr::~ValueArr() {
     Clear();
 }
diff --git a/values/ValueArr.hpp b/values/ValueArr.hpp
index 7b63370..7d3222a 100644
--- a/values/ValueArr.hpp
+++ b/values/ValueArr.hpp
@@ -36,6 +36,8 @@ namespace DowowNetwork {
         void Clear();
 
         void CopyFrom(Value* original);
+        ValueArr(const ValueArr& original);
+        ValueArr& operator=(const ValueArr& original);
 
         ~ValueArr();
     };
diff --git a/values/ValueStr.cpp b/values/ValueStr.cpp
index bac2097..043bda3 100644
--- a/values/ValueStr.cpp
+++ b/values/ValueStr.cpp
@@ -121,6 +121,15 @@ DowowNetwork::ValueStr::operator std::string() const {
     return Get();
 }
 
+DowowNetwork::ValueStr::ValueStr(const ValueStr& original) : ValueStr() {
+    CopyFrom(const_cast<ValueStr*>(&original));
+}
+
+DowowNetwork::ValueStr& DowowNetwork::ValueStr::operator=(const ValueStr& original) {
+    CopyFrom(const_cast<ValueStr*>(&original));
+    return *this;
+}
+
 DowowNetwork::ValueStr::~ValueStr() {
     DeleteBuffer();
 }
diff --git a/values/ValueStr.hpp b/values/ValueStr.hpp
index f50ab9c..809dc27 100644
--- a/values/ValueStr.hpp
+++ b/values/ValueStr.hpp
@@ -30,6 +30,8 @@ namespace DowowNetwork {
         void Set(const char* buffer, uint32_t length);
 
         void CopyFrom(Value* original);
+        ValueStr(const ValueStr& original);
+        ValueStr& operator=(const ValueStr& original);
 
         // operator
         operator std::string() const;
diff --git a/values/ValueUndefined.cpp b/values/ValueUndefined.cpp
index c09923b..79ee52c 100644
--- a/values/ValueUndefined.cpp
+++ b/values/ValueUndefined.cpp
@@ -52,6 +52,15 @@ void DowowNetwork::ValueUndefined::CopyFrom(Value* original_) {
     }
 }
 
+DowowNetwork::ValueUndefined::ValueUndefined(const ValueUndefined& original) : ValueUndefined() {
+    CopyFrom(const_cast<ValueUndefined*>(&original));
+}
+
+DowowNetwork::ValueUndefined& DowowNetwork::ValueUndefined::operator=(const ValueUndefined& original) {
+    CopyFrom(const_cast<ValueUndefined*>(&original));
+    return *this;
+}
+
 DowowNetwork::ValueUndefined::~ValueUndefined() {
     free(undefined_data);
 }
diff --git a/values/ValueUndefined.hpp b/values/ValueUndefined.hpp
index 1051ddc..bc4f247 100644
--- a/values/ValueUndefined.hpp
+++ b/values/ValueUndefined.hpp
@@ -17,6 +17,8 @@ namespace DowowNetwork {
         ValueUndefined();
 
         void CopyFrom(Value* original);
+        ValueUndefined(const ValueUndefined& original);
+        ValueUndefined& operator=(const ValueUndefined& original);
 
         ~ValueUndefined();
     };
-- 
2.43.0


From 2208eace880a84dfc2b20bd2ee08a8005f6b2c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 17/55] fix: copying a Datum or Request object freed its
 arguments twice

---
 Datum.cpp   | 10 ++++++++++
 Datum.hpp   |  2 ++
 Request.cpp |  9 +++++++++
 Request.hpp |  2 ++
 4 files changed, 23 insertions(+)

diff --git a/Datum.cpp b/Datum.cpp
index b5953fb..3107825 100644
--- a/Datum.cpp
+++ b/Datum.cpp
@@ -8,6 +8,16 @@ DowowNetwork::Datum::Datum() {
     this->value = new ValueUndefined();
 }
 
+DowowNetwork::Datum::Datum(const Datum& original) : Datum() {
+    *this = original;
+}
+
+DowowNetwork::Datum& DowowNetwork::Datum::operator=(const Datum& original) {
+    SetName(original.name);
+    SetValue(original.value, true);
+    return *this;
+}
+
 bool DowowNetwork::Datum::GetValid() const {
     // the datum is valid if:
     //    1. its value isn't 0
diff --git a/Datum.hpp b/Datum.hpp
index 555a926..e112877 100644
--- a/Datum.hpp
+++ b/Datum.hpp
@@ -21,6 +21,8 @@ namespace DowowNetwork {
     public:
         /// Create a new empty datum.
         Datum();
+        Datum(const Datum& original);
+        Datum& operator=(const Datum& original);
 
         /// Check if the Datum is a valid one.
         /*!
diff --git a/Request.cpp b/Request.cpp
index 6a73eb9..e958c37 100644
--- a/Request.cpp
+++ b/Request.cpp
@@ -9,6 +9,15 @@ DowowNetwork::Request::Request(std::string name) : name(name) {
 
 }
 
+DowowNetwork::Request::Request(const Request& original) {
+    CopyFrom(&original);
+}
+
+DowowNetwork::Request& DowowNetwork::Request::operator=(const Request& original) {
+    CopyFrom(&original);
+    return *this;
+}
+
 void DowowNetwork::Request::SetName(std::string name) {
     this->name = name;
 }
diff --git a/Request.hpp b/Request.hpp
index 9a0a394..7f28fa4 100644
--- a/Request.hpp
+++ b/Request.hpp
@@ -30,6 +30,8 @@ namespace DowowNetwork {
             \param name the name of the Request
         */
         explicit Request(std::string name = "");
+        Request(const Request& original);
+        Request& operator=(const Request& original);
 
         /// Set the name of the Request.
         /*!
-- 
2.43.0


From 6f055f547a5c56fe02bf375b5166cb5ab20701b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 18/55] fix: deserializing deeply nested arrays overflowed the
 stack

---
 values/ValueArr.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/values/ValueArr.cpp b/values/ValueArr.cpp
index 4cf47fd..07d037a 100644
--- a/values/ValueArr.cpp
+++ b/values/ValueArr.cpp
@@ -3,6 +3,19 @@
 #include "CreateValue.hpp"
 #include "ValueArr.hpp"
 
+namespace {
+    // counts the arrays that are being deserialized inside each other
+    struct NestingGuard {
+        static thread_local uint32_t depth;
+        NestingGuard() { depth++; }
+        ~NestingGuard() { depth--; }
+    };
+    thread_local uint32_t NestingGuard::depth = 0;
+
+    // deeper nesting is refused, it would overflow the stack
+    const uint32_t max_nesting_depth = 1024;
+}
+
 DowowNetwork::ValueArr::ValueArr() : Value(ValueTypeArr) {
     
 }
@@ -11,6 +24,10 @@ uint32_t DowowNetwork::ValueArr::DeserializeInternal(const char* data, uint32_t
     // delete the buffer
     Clear();
 
+    // check if nested too deep
+    NestingGuard nesting_guard;
+    if (NestingGuard::depth > max_nesting_depth) return 0;
+
     // can't even read the elements amount
     if (length < 4) return 0;
 
-- 
2.43.0


From 4ddd90ee7d4481ee38725a2f71fe39324dc3e52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 19/55] fix: a request length received in several parts was
 assembled wrong

---
 Connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Connection.cpp b/Connection.cpp
index c8afcdc..403e57f 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -241,7 +241,7 @@ bool DowowNetwork::Connection::Receive() {
         // (effectively interchangable definitions)
         int recv_res = recv(
             socket_fd,
-            &recv_buffer_length,
+            reinterpret_cast<char*>(&recv_buffer_length) + recv_buffer_offset,
             sizeof(recv_buffer_length) - recv_buffer_offset,
             0);
 
-- 
2.43.0


From 4b17614b8f502bb8139baeb10eaec8c8f41ac7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 20/55] fix: an announced request length below 4 overran the
 receive buffer

---
 Connection.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Connection.cpp b/Connection.cpp
index 403e57f..66a7441 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -264,6 +264,12 @@ bool DowowNetwork::Connection::Receive() {
                     return false;
                 }
 
+                // check if too small, the length itself is a part of the request
+                if (recv_buffer_length <= sizeof(recv_buffer_length)) {
+                    // the connection is broken
+                    return false;
+                }
+
                 // offset for data must be set to be after the size
                 recv_buffer_offset = sizeof(recv_buffer_length);
                 // create the buffer
-- 
2.43.0


From e1328162ea381308397e983adc44dfee66404050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 21/55] fix: sending a block larger than the free socket buffer
 blocked the polling thread

---
 Connection.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 66a7441..dace011 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -1,5 +1,6 @@
 #include "Connection.hpp"
 
+#include <cerrno>
 #include <cstring>
 #include <endian.h>
 #include <unistd.h>
@@ -364,12 +365,20 @@ bool DowowNetwork::Connection::Send() {
             send_buffer_length - send_buffer_offset;
 
         // write to the socket.
-        // MSG_NOSIGNAL to disable broken pipe signal
+        // MSG_NOSIGNAL to disable broken pipe signal,
+        // MSG_DONTWAIT to keep handling the other events
         int send_res = send(
             socket_fd,
             send_buffer + send_buffer_offset,
             left_to_send < send_block_size ? left_to_send : send_block_size,
-            MSG_NOSIGNAL);
+            MSG_NOSIGNAL | MSG_DONTWAIT);
+
+        // nothing could be sent yet, not an error
+        if (send_res == -1 &&
+            (errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR))
+        {
+            return true;
+        }
 
         // check result
         if (send_res == -1 || send_res == 0) {
-- 
2.43.0


From 96f678d90dd04096918942ef7ac20f3bc897da5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 22/55] fix: a signal during the polling broke the connection

---
 Connection.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index dace011..6ab4cc9 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -41,7 +41,7 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
         // lock connected/disconnecting mutex
         c->mutex_cd.lock();
         // create the fds for poll
-        pollfd pollfds[5];
+        pollfd pollfds[5] = {};
         // add 'to_stop' event
         pollfds[0].fd = c->to_stop_event;
         pollfds[0].events = POLLIN;
@@ -247,7 +247,10 @@ bool DowowNetwork::Connection::Receive() {
             0);
 
         // check results
-        if (recv_res == -1 || recv_res == 0) {
+        if (recv_res == -1 && errno == EINTR) {
+            // interrupted by a signal, try again later
+            return true;
+        } else if (recv_res == -1 || recv_res == 0) {
             // the connection is broken
             return false;
         } else {
@@ -299,7 +302,10 @@ bool DowowNetwork::Connection::Receive() {
             0);
 
         // check results
-        if (recv_res == -1 || recv_res == 0) {
+        if (recv_res == -1 && errno == EINTR) {
+            // interrupted by a signal, try again later
+            return true;
+        } else if (recv_res == -1 || recv_res == 0) {
             // connection is broken
             return false;
         } else {
-- 
2.43.0


From 2a8dd2ede69f2a420f966a9e59d8239670c1b82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 23/55] fix: the polling thread hung when the keep-alive timer
 was restarted before reading it

---
 Connection.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 6ab4cc9..6f43b76 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -489,8 +489,9 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
     to_stop_event = eventfd(0, 0);
 
     // create the timers for keep-alive mechanism
-    our_sa_timer = timerfd_create(CLOCK_MONOTONIC, 0);
-    their_na_timer = timerfd_create(CLOCK_MONOTONIC, 0);
+    // (they can be restarted before they are read, so reading must not block)
+    our_sa_timer = timerfd_create(CLOCK_MONOTONIC, TFD_NONBLOCK);
+    their_na_timer = timerfd_create(CLOCK_MONOTONIC, TFD_NONBLOCK);
 
     // start the timers
     Utils::SetTimerFdTimeout(our_sa_timer, our_sa_interval);
-- 
2.43.0


From 46eedf361a791d741c73190658affdbfd1e03a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 24/55] fix: a peer that was not silent was disconnected when
 its data was handled late

---
 Connection.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Connection.cpp b/Connection.cpp
index 6f43b76..b96118d 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -117,7 +117,10 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
         // *********************
         // their not-alive event
         // *********************
-        if (pollfds[3].revents & POLLIN) {
+        // (if there was something to receive then they are alive)
+        if ((pollfds[3].revents & POLLIN) &&
+            !(pollfds[1].revents & POLLIN))
+        {
             // close, they're timed out.
             break;
         }
-- 
2.43.0


From 1b19c2f4d0360373c6343a0b2b66e1065ea9beef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 25/55] fix: graceful disconnection never ended when the send
 queue was empty

---
 Connection.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index b96118d..82049d1 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -705,14 +705,15 @@ void DowowNetwork::Connection::Disconnect(bool forced, bool wait_for_join) {
         // forced
         Utils::WriteEventFd(to_stop_event, 1);
     } else if (!is_disconnecting) {
-        // mark for disconnection
-        is_disconnecting = true;
         // graceful
         Request *dummy = new Request("_");
         // push a dummy request so that the
         // thread will call Send() and
         // eventually stop
         Push(dummy, false, 0, false);
+        // mark for disconnection (after pushing,
+        // because Push() is refused when disconnecting)
+        is_disconnecting = true;
     }
 
     mutex_cd.unlock();
-- 
2.43.0


From 413f1b86b67b0dfd906c088a05eb017166eaaa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 26/55] fix: graceful disconnection was cut by the silence
 limit while the peer was reading

---
 Connection.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 82049d1..850f139 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -396,12 +396,19 @@ bool DowowNetwork::Connection::Send() {
         } else {
             // increase offset
             send_buffer_offset += send_res;
+            // lock
+            MTLock(__mcd, mutex_cd);
+
+            // nothing is received when disconnecting, but they
+            // are alive while they are accepting our data
+            if (is_disconnecting)
+                Utils::SetTimerFdTimeout(
+                    their_na_timer,
+                    their_na_interval);
+
             // sent everything
             if (send_buffer_offset == send_buffer_length) {
                 DeleteSendBuffer();
-                
-                // lock
-                MTLock(__mcd, mutex_cd);
 
                 // check if disconnecting and no data left
                 if (is_disconnecting &&
-- 
2.43.0


From aac53d5095781cba743d81e73f8a1a943a156473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 27/55] fix: handlers pushing to connections of each other
 deadlocked

---
 Connection.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 850f139..b3d497a 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -71,8 +71,9 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
             sizeof(pollfds) / sizeof(pollfds[0]),
             -1);
 
-        // lock connected/disconnecting mutex
-        MTLock(__mcd, c->mutex_cd);
+        // remark:  no lock here, because the handlers are called below and
+        //          two handlers pushing to connections of each other
+        //          would wait for each other forever.
 
         // ***************
         // 'to_stop' event
-- 
2.43.0


From 61707f0d1154cf388d43ecb1043f987fc01ca2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 28/55] fix: a request pushed while the connection was ending
 could get to the next connection

---
 Connection.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index b3d497a..f8ae1c6 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -568,17 +568,15 @@ time_t DowowNetwork::Connection::GetTheirNaIntervalLimit() {
 }
 
 DowowNetwork::Request* DowowNetwork::Connection::Push(Request* req, bool must_copy, int timeout, bool change_request_id) {
-    {
-        // lock
-        MTLock(__mcd, mutex_cd);
-
-        // not connected or disconnecting
-        if (!IsConnected() || IsDisconnecting()) {
-            // delete the data if it is not copied
-            if (!must_copy)
-                delete req;
-            return 0;
-        }
+    // lock, the state must not change until the request is in the queue
+    MTLock(__mcd, mutex_cd);
+
+    // not connected or disconnecting
+    if (!IsConnected() || IsDisconnecting()) {
+        // delete the data if it is not copied
+        if (!must_copy)
+            delete req;
+        return 0;
     }
 
     // lock the send queue
-- 
2.43.0


From f0002fa2a5d1dfde567adbe6fe7ba7a6c91d93df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 29/55] fix: a referenced connection that has ended blocked its
 users or was closed too early

---
 Connection.cpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index f8ae1c6..77cf69e 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -134,11 +134,10 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
         }
     }
 
-    // lock the connected/disconnecting mutex
-    MTLock(__mcd, c->mutex_cd);
-
     // mark as disconnecting
+    c->mutex_cd.lock();
     c->is_disconnecting = true;
+    c->mutex_cd.unlock();
 
     // notify the Pull() callers that the receive is finished
     if (c->receive_event != -1) {
@@ -148,21 +147,25 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
 
     // lock the reference counter
     c->mutex_ra.lock();
-    // still referenced by external code, setup event
-    if (c->GetRefs())
+    // still referenced by external code
+    while (c->GetRefs()) {
+        // setup event
         c->not_needed_event = eventfd(0, 0);
-    // unlock the reference counter
-    c->mutex_ra.unlock();
-
-    // needed by someone
-    if (c->not_needed_event != -1) {
-        // wait until the Connection is not needed anymore
+        // wait until the Connection is not needed anymore,
+        // the code that references it must not be blocked meanwhile
+        c->mutex_ra.unlock();
         Utils::SelectRead(c->not_needed_event, -1);
+        c->mutex_ra.lock();
 
         // close the event
         close(c->not_needed_event);
         c->not_needed_event = -1;
     }
+    // unlock the reference counter
+    c->mutex_ra.unlock();
+
+    // lock the connected/disconnecting mutex
+    MTLock(__mcd, c->mutex_cd);
 
     // close (almost) everything
     shutdown(c->socket_fd, SHUT_RDWR);
@@ -693,7 +696,7 @@ void DowowNetwork::Connection::DecreaseRefs() {
     mutex_ra.lock();
     refs_amount--;
     // the background thread awaits loneliness ;-(
-    if (not_needed_event != -1)
+    if (!refs_amount && not_needed_event != -1)
         Utils::WriteEventFd(not_needed_event, 1);
     mutex_ra.unlock();
 }
-- 
2.43.0


From c3f328b66b3098efe20a91b4621c8f1041c186f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 30/55] fix: setting intervals of a connection that has ended
 used closed descriptors

---
 Connection.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Connection.cpp b/Connection.cpp
index 77cf69e..61f7ecc 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -175,6 +175,13 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
     close(c->our_sa_timer);
     close(c->their_na_timer);
 
+    // the descriptors are not ours anymore
+    c->socket_fd = -1;
+    c->push_event = -1;
+    c->to_stop_event = -1;
+    c->our_sa_timer = -1;
+    c->their_na_timer = -1;
+
     // delete buffers
     c->DeleteSendBuffer();
     c->DeleteRecvBuffer();
@@ -553,6 +560,8 @@ DowowNetwork::Connection::Connection(int socket_fd) : Connection() {
 }
 
 void DowowNetwork::Connection::SetOurSaInterval(time_t interval) {
+    // lock, the timer must not get closed meanwhile
+    MTLock(__mcd, mutex_cd);
     our_sa_interval = interval < 1 ? 1 : interval;
     Utils::SetTimerFdTimeout(our_sa_timer, our_sa_interval);
 }
@@ -562,6 +571,8 @@ time_t DowowNetwork::Connection::GetOurSaInterval() {
 }
 
 void DowowNetwork::Connection::SetTheirNaIntervalLimit(time_t interval) {
+    // lock, the timer must not get closed meanwhile
+    MTLock(__mcd, mutex_cd);
     their_na_interval = interval < 1 ? 1 : interval;
     Utils::SetTimerFdTimeout(their_na_timer, their_na_interval);
 }
-- 
2.43.0


From c9c2303aa6c26010edc9f3d21b5bd0a1d75a4a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 31/55] fix: Pull on an ended connection waited forever and its
 event was closed twice

---
 Connection.cpp | 14 ++++++++------
 Connection.hpp |  2 ++
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 61f7ecc..d472ff1 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -140,10 +140,11 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
     c->mutex_cd.unlock();
 
     // notify the Pull() callers that the receive is finished
-    if (c->receive_event != -1) {
+    c->mutex_rq.lock();
+    c->is_receive_finished = true;
+    if (c->receive_event != -1)
         Utils::WriteEventFd(c->receive_event, 1);
-        close(c->receive_event);
-    }
+    c->mutex_rq.unlock();
 
     // lock the reference counter
     c->mutex_ra.lock();
@@ -345,12 +346,12 @@ bool DowowNetwork::Connection::Receive() {
                         if (!PassThroughHandlers(req)) {
                             mutex_rq.lock();
                             recv_queue.push(req);
-                            mutex_rq.unlock();
 
                             // queue updated, notify outer code
                             if (receive_event != -1) {
                                 Utils::WriteEventFd(receive_event, 1);
                             }
+                            mutex_rq.unlock();
                         }
                     }
                 }
@@ -526,6 +527,7 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
 
     // cleanup receive queue
     mutex_rq.lock();
+    is_receive_finished = false;
     while (recv_queue.size()) {
         delete recv_queue.front();
         recv_queue.pop();
@@ -652,8 +654,8 @@ DowowNetwork::Request* DowowNetwork::Connection::Pull(int timeout) {
         return req;
     }
 
-    // no timeout
-    if (!timeout) {
+    // no timeout or nothing to wait for
+    if (!timeout || is_receive_finished) {
         mutex_rq.unlock();
         return 0;
     }
diff --git a/Connection.hpp b/Connection.hpp
index e1b570f..e53750d 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -94,6 +94,8 @@ namespace DowowNetwork {
         uint32_t recv_buffer_offset = 0;
         //! The queue of the received requests.
         std::queue<Request*> recv_queue;
+        //! Is the receive queue not going to be filled anymore?
+        bool is_receive_finished = true;
         //! Is receiving the request length right now?
         bool is_recv_length = true;
 
-- 
2.43.0


From 022d325f933bd3f0e6f2da070da56f6383c3f4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 32/55] fix: Pull waited for milliseconds instead of seconds

---
 Connection.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index d472ff1..7796159 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -669,14 +669,11 @@ DowowNetwork::Request* DowowNetwork::Connection::Pull(int timeout) {
     // set up receive event
     receive_event = eventfd(0, 0);
 
-    // set up pollfds
-    pollfd pollfds { receive_event, POLLIN, 0 };
-
     // unlock
     mutex_rq.unlock();
 
-    // poll
-    poll(&pollfds, 1, timeout);
+    // wait, the timeout is in seconds
+    Utils::SelectRead(receive_event, timeout);
 
     // lock
     mutex_rq.lock();
-- 
2.43.0


From 13a28e4faae1a27460cb7937d8811fddce2a0f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 33/55] fix: requests that were not pulled leaked with the
 connection

---
 Connection.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Connection.cpp b/Connection.cpp
index 7796159..d1dcee7 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -841,6 +841,12 @@ DowowNetwork::Connection::~Connection() {
         delete background_thread;
     }
 
+    // delete the requests that were not pulled
+    while (recv_queue.size()) {
+        delete recv_queue.front();
+        recv_queue.pop();
+    }
+
     // close the stopped eventfd
     close(stopped_event);
 }
-- 
2.43.0


From 635da40b54644bb48f41a76c58a8a1c19b1b3a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 34/55] fix: a new connection got the stop notification of the
 old one

---
 Connection.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index d1dcee7..812942d 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -476,11 +476,12 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
 
     // check if background thread exists
     if (background_thread) {
-        // just detach it, nothing bad
-        // will happen, because not connected
-        background_thread->detach();
+        // wait until it is finished, it still
+        // might be notifying about the stop
+        background_thread->join();
         // free memory
         delete background_thread;
+        background_thread = 0;
     }
 
     // get the type
-- 
2.43.0


From f5476025dee010de9b8cc22eba3201128ad2b7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 35/55] fix: setting handlers while requests are being received
 corrupted the handlers map

---
 Connection.cpp | 12 ++++++++++++
 Connection.hpp |  2 ++
 2 files changed, 14 insertions(+)

diff --git a/Connection.cpp b/Connection.cpp
index 812942d..ea1a255 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -766,14 +766,23 @@ bool DowowNetwork::Connection::WaitForStop(int timeout) {
 }
 
 void DowowNetwork::Connection::SetHandlerDefault(RequestHandler h) {
+    // lock
+    MTLock(__mh, mutex_h);
+
     handler_default = h;
 }
 
 DowowNetwork::RequestHandler DowowNetwork::Connection::GetHandlerDefault() {
+    // lock
+    MTLock(__mh, mutex_h);
+
     return handler_default;
 }
 
 void DowowNetwork::Connection::SetHandlerNamed(std::string name, RequestHandler h) {
+    // lock
+    MTLock(__mh, mutex_h);
+
     // must delete and is set
     if (h == 0) {
         auto it = handlers_named.find(name);
@@ -788,6 +797,9 @@ void DowowNetwork::Connection::SetHandlerNamed(std::string name, RequestHandler
 }
 
 DowowNetwork::RequestHandler DowowNetwork::Connection::GetHandlerNamed(std::string name) {
+    // lock
+    MTLock(__mh, mutex_h);
+
     auto it = handlers_named.find(name);
     // is not set
     if (it == handlers_named.end()) return 0;
diff --git a/Connection.hpp b/Connection.hpp
index e53750d..e1ce28d 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -50,6 +50,8 @@ namespace DowowNetwork {
         std::recursive_mutex mutex_ra;
         //! mutex for 'connected' and 'disconnecting' states
         std::recursive_mutex mutex_cd;
+        //! mutex for request handlers
+        std::recursive_mutex mutex_h;
         //! mutex for background thread pointer
         std::recursive_mutex mutex_bt;
 
-- 
2.43.0


From 6c708175c4915c47fb71915b852b62f8e9477fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 36/55] fix: requests received before the peer had closed the
 connection were lost

---
 Connection.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Connection.cpp b/Connection.cpp
index ea1a255..fa6e7f3 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -95,7 +95,11 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
         }
         if (pollfds[1].revents & POLLOUT) {
             if (!c->Send()) {
-                // error
+                // error, but handle everything that was received before
+                // (when disconnecting, nothing is received anymore)
+                while (!c->IsDisconnecting() &&
+                       Utils::SelectRead(c->socket_fd, 0) &&
+                       c->Receive());
                 break;
             }
         }
-- 
2.43.0


From cec04f9bf6dd2917b3f02dc60bf2593137fe8c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 37/55] fix: waiting functions returned too early when
 interrupted by a signal

---
 Utils.cpp | 48 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index 76819a1..3aef26e 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -1,5 +1,8 @@
 #include "Utils.hpp"
 
+#include <cerrno>
+#include <climits>
+#include <cstdint>
 #include <unistd.h>
 #include <sys/poll.h>
 #include <sys/timerfd.h>
@@ -8,18 +11,47 @@
 // zero timespan
 const timespec zero_time { 0, 0 };
 
-bool DowowNetwork::Utils::SelectWrite(int fd, int seconds) {
-    pollfd pollfds { fd, POLLOUT, 0 };
-    poll(&pollfds, 1, seconds * 1000);
+// Polls one descriptor, is not affected by signals.
+static bool Select(int fd, short events, int seconds) {
+    // get the moment of timing out (in milliseconds)
+    timespec now;
+    clock_gettime(CLOCK_MONOTONIC, &now);
+    int64_t end =
+        (static_cast<int64_t>(now.tv_sec) + seconds) * 1000 +
+        now.tv_nsec / 1000000;
+
+    // the time left
+    int64_t left = static_cast<int64_t>(seconds) * 1000;
+
+    while (true) {
+        pollfd pollfds { fd, events, 0 };
+        int res = poll(
+            &pollfds,
+            1,
+            seconds < 0 ? -1 : left < INT_MAX ? static_cast<int>(left) : INT_MAX);
 
-    return pollfds.revents & POLLOUT;
+        // the descriptor is ready
+        if (res > 0) return pollfds.revents & events;
+        // error (being interrupted is not an error)
+        if (res == -1 && errno != EINTR) return false;
+        // no timeout
+        if (seconds < 0) continue;
+
+        // check if timed out
+        clock_gettime(CLOCK_MONOTONIC, &now);
+        left =
+            end - static_cast<int64_t>(now.tv_sec) * 1000 -
+            now.tv_nsec / 1000000;
+        if (left <= 0) return false;
+    }
 }
 
-bool DowowNetwork::Utils::SelectRead(int fd, int seconds) {
-    pollfd pollfds { fd, POLLIN, 0 };
-    poll(&pollfds, 1, seconds * 1000);
+bool DowowNetwork::Utils::SelectWrite(int fd, int seconds) {
+    return Select(fd, POLLOUT, seconds);
+}
 
-    return pollfds.revents & POLLIN;
+bool DowowNetwork::Utils::SelectRead(int fd, int seconds) {
+    return Select(fd, POLLIN, seconds);
 }
 
 void DowowNetwork::Utils::WriteEventFd(int fd, uint64_t num) {
-- 
2.43.0


From 7067c488ac2e7aa6e3a34af35fcedcfac889e70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 38/55] fix: client and server used the same request IDs

---
 Client.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Client.cpp b/Client.cpp
index 0e4fd22..c8f4859 100644
--- a/Client.cpp
+++ b/Client.cpp
@@ -65,7 +65,7 @@ void DowowNetwork::Client::TcpThreadFunc(Client *c, std::string ip, uint16_t por
     c->temp_socket_fd = -1;
 
     // setup the request id part
-    c->SetEvenRequestIdsPart(true);
+    c->SetEvenRequestIdsPart(false);
 
     // notify
     Utils::WriteEventFd(c->connect_event, 1);
@@ -104,7 +104,7 @@ void DowowNetwork::Client::UnixThreadFunc(Client *c, std::string socket_path, in
     c->temp_socket_fd = -1;
 
     // request part setup
-    c->SetEvenRequestIdsPart(true);
+    c->SetEvenRequestIdsPart(false);
 
     // notify
     Utils::WriteEventFd(c->connect_event, 1);
-- 
2.43.0


From 1f81a94d599b5189af3a5d5171275d4aab4b2bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 39/55] fix: a server without handlers called uninitialized
 pointers

---
 Server.cpp | 5 +++--
 Server.hpp | 8 ++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index a880342..496fff9 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -94,8 +94,9 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         i = 0;
         for (auto c : s->connections) {
             if (pollfds[2 + i++].revents & POLLIN) {
-                // call 'disconnected' handler
-                (*s->GetDisconnectedHandler())(s, c);
+                // call 'disconnected' handler if set
+                if (s->GetDisconnectedHandler())
+                    (*s->GetDisconnectedHandler())(s, c);
                 // delete the connection
                 delete c;
                 deleted_conns.push_back(c);
diff --git a/Server.hpp b/Server.hpp
index f90bf6c..bd80505 100644
--- a/Server.hpp
+++ b/Server.hpp
@@ -40,8 +40,8 @@ namespace DowowNetwork {
         std::string unix_socket_path;
 
         // tcp (host byteorder)
-        uint32_t tcp_socket_address;
-        uint16_t tcp_socket_port;
+        uint32_t tcp_socket_address = 0;
+        uint16_t tcp_socket_port = 0;
 
         //! 'stopped' event.
         //! Occurs when the server is stopped.
@@ -57,10 +57,10 @@ namespace DowowNetwork {
         //! Handler for new connections.
         //! Called right after the polling thread for
         //! connection is started.
-        ConnectionHandler connected_handler;
+        ConnectionHandler connected_handler = 0;
         //! Handler for disconnection.
         //! Called
-        ConnectionHandler disconnected_handler;
+        ConnectionHandler disconnected_handler = 0;
 
         /// Accept one client.
         Connection* AcceptOne();
-- 
2.43.0


From 37945fc6db9627db9bc010237d66e16fc9f24f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 40/55] fix: the connected handler got a connection without an
 ID

---
 Server.cpp | 10 ++++++----
 Server.hpp |  4 ++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index 496fff9..fb25576 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -20,7 +20,7 @@
 #include "Utils.hpp"
 #include "Server.hpp"
 
-DowowNetwork::Connection* DowowNetwork::Server::AcceptOne() {
+DowowNetwork::Connection* DowowNetwork::Server::AcceptOne(uint32_t id) {
     // accept
     int temp_fd = accept4(socket_fd, 0, 0, 0);
     // failed
@@ -28,6 +28,8 @@ DowowNetwork::Connection* DowowNetwork::Server::AcceptOne() {
 
     // create a connection
     Connection *conn = new Connection(temp_fd);
+    // assign the id
+    conn->id = id;
 
     // call the handler if set
     if (GetConnectedHandler()) {
@@ -111,11 +113,11 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         // ***********************
         if (pollfds[0].revents & POLLIN) {
             // accept
-            Connection *new_conn = s->AcceptOne();
+            Connection *new_conn = s->AcceptOne(free_conn_id);
             // not an error
             if (new_conn) {
-                // assign the id
-                new_conn->id = free_conn_id++;
+                // the id is used
+                free_conn_id++;
                 // add to the list of connections
                 s->connections.push_back(new_conn);
             }
diff --git a/Server.hpp b/Server.hpp
index bd80505..a4e2cc6 100644
--- a/Server.hpp
+++ b/Server.hpp
@@ -62,8 +62,8 @@ namespace DowowNetwork {
         //! Called
         ConnectionHandler disconnected_handler = 0;
 
-        /// Accept one client.
-        Connection* AcceptOne();
+        /// Accept one client and give it the id.
+        Connection* AcceptOne(uint32_t id);
 
         static void ServerThreadFunc(Server *server);
     public:
-- 
2.43.0


From 7a9af2a4ebbab9f02af9ab839801be47be650d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 41/55] fix: the server stopped when its polling was
 interrupted by a signal

---
 Server.cpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index fb25576..9bc564d 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -54,7 +54,7 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
                 s->max_connections;
         }
 
-        pollfd *pollfds = new pollfd[2 + s->connections.size()];
+        pollfd *pollfds = new pollfd[2 + s->connections.size()]();
         // server socket
         pollfds[0].fd = accept_new ? s->socket_fd : -1;
         pollfds[0].events = POLLIN;
@@ -123,14 +123,6 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
             }
         }
 
-        // *************************************
-        // no new connections, no deleted - quit
-        // *************************************
-        else if (!deleted_conns.size()) {
-            delete[] pollfds;
-            break;
-        }
-
         // free memory
         delete[] pollfds;
         continue;
-- 
2.43.0


From 8e67ced8b4d1367e2096c729695600c7172525ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 42/55] fix: looking up connections while they were being added
 or deleted used freed memory

---
 Server.cpp | 54 +++++++++++++++++++++++++++++++++++++++++-------------
 Server.hpp |  4 ++++
 2 files changed, 45 insertions(+), 13 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index 9bc564d..3c1b68d 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -12,6 +12,7 @@
 #include <endian.h>
 #include <errno.h>
 
+#include <chrono>
 #include <thread>
 #include <algorithm>
 
@@ -31,6 +32,11 @@ DowowNetwork::Connection* DowowNetwork::Server::AcceptOne(uint32_t id) {
     // assign the id
     conn->id = id;
 
+    // add to the list of connections.
+    // nobody else must find it until the handler is finished.
+    std::lock_guard<typeof(mutex_connections)> __cm(mutex_connections);
+    connections.push_back(conn);
+
     // call the handler if set
     if (GetConnectedHandler()) {
         (*GetConnectedHandler())(this, conn);
@@ -71,10 +77,11 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         }
 
         // poll events
+        // (not longer than 50 ms if waiting for references to be released)
         poll(
             pollfds,
             2 + s->connections.size(),
-            -1);
+            s->referenced_connections.size() ? 50 : -1);
 
         // lock
         std::lock_guard<typeof(s->mutex_server)> __sm(s->mutex_server);
@@ -99,14 +106,23 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
                 // call 'disconnected' handler if set
                 if (s->GetDisconnectedHandler())
                     (*s->GetDisconnectedHandler())(s, c);
-                // delete the connection
-                delete c;
                 deleted_conns.push_back(c);
             }
         }
         // remove deleted connections
-        for (auto c : deleted_conns)
+        s->mutex_connections.lock();
+        for (auto c : deleted_conns) {
             s->connections.remove(c);
+            s->referenced_connections.push_back(c);
+        }
+        s->mutex_connections.unlock();
+        // delete them if nobody uses them, nobody can find them anymore
+        s->referenced_connections.remove_if(
+            [](Connection *c) {
+                if (c->GetRefs()) return false;
+                delete c;
+                return true;
+            });
 
         // ***********************
         // check if new connection
@@ -118,8 +134,6 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
             if (new_conn) {
                 // the id is used
                 free_conn_id++;
-                // add to the list of connections
-                s->connections.push_back(new_conn);
             }
         }
 
@@ -128,26 +142,34 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         continue;
     }
 
-    // lock
-    std::lock_guard<typeof(s->mutex_server)> __sm(s->mutex_server);
+    // nobody must find the connections anymore
+    s->mutex_connections.lock();
+    std::list<Connection*> closed_conns;
+    closed_conns.swap(s->connections);
+    s->mutex_connections.unlock();
 
     // force open connections to close
     // make all the open connections close
-    for (auto c : s->connections) {
+    // (not locked, because their handlers might be using the server)
+    for (auto c : closed_conns)
         c->Disconnect(true);
+    closed_conns.splice(closed_conns.end(), s->referenced_connections);
+    for (auto c : closed_conns) {
         c->WaitForStop(-1);
+        // wait until nobody uses it
+        while (c->GetRefs())
+            std::this_thread::sleep_for(std::chrono::milliseconds(1));
         delete c;
     }
-    s->connections.clear();
+
+    // lock
+    std::lock_guard<typeof(s->mutex_server)> __sm(s->mutex_server);
 
     // close the server socket
     close(s->socket_fd);
     // close to_stop fd
     close(s->to_stop_event);
     
-    // clear
-    s->connections.clear();
-
     // notify about stop
     Utils::WriteEventFd(s->stopped_event, 1);
 
@@ -325,6 +347,9 @@ int32_t DowowNetwork::Server::GetMaxConnections() {
 }
 
 DowowNetwork::SafeConnection *DowowNetwork::Server::GetConnection(std::string tag) {
+    // lock, the connection must not be deleted before it is referenced
+    std::lock_guard<typeof(mutex_connections)> __cm(mutex_connections);
+
     auto it = std::find_if(
         connections.begin(),
         connections.end(),
@@ -338,6 +363,9 @@ DowowNetwork::SafeConnection *DowowNetwork::Server::GetConnection(std::string ta
 }
 
 DowowNetwork::SafeConnection *DowowNetwork::Server::GetConnection(uint32_t id) {
+    // lock, the connection must not be deleted before it is referenced
+    std::lock_guard<typeof(mutex_connections)> __cm(mutex_connections);
+
     auto it = std::find_if(
         connections.begin(),
         connections.end(),
diff --git a/Server.hpp b/Server.hpp
index a4e2cc6..1221692 100644
--- a/Server.hpp
+++ b/Server.hpp
@@ -30,6 +30,8 @@ namespace DowowNetwork {
         int socket_fd = -1;
         // accepted clients
         std::list<Connection*> connections;
+        // disconnected clients that are still referenced
+        std::list<Connection*> referenced_connections;
         // maximum amount of connected clients, negative for unlimited
         int32_t max_connections = -1;
 
@@ -51,6 +53,8 @@ namespace DowowNetwork {
         //! Occurs when the server shutdown is requested.
         int to_stop_event = -1;
 
+        // mutex for the list of connections
+        std::recursive_mutex mutex_connections;
         // mutex for any operations
         std::recursive_mutex mutex_server;
 
-- 
2.43.0


From 48f938a580e9ce33516740a40321fb26ce30bf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 43/55] fix: the server reported being stopped too early and
 never reset the report

---
 Server.cpp | 43 ++++++++++++++++++++++++++++++++-----------
 Server.hpp |  7 +++++++
 2 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index 3c1b68d..9f0a14a 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -170,9 +170,6 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
     // close to_stop fd
     close(s->to_stop_event);
     
-    // notify about stop
-    Utils::WriteEventFd(s->stopped_event, 1);
-
     // UNIX socket - delete it
     if (s->GetType() == SocketTypeUnix)
         unlink(s->unix_socket_path.c_str());
@@ -181,6 +178,18 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
     s->socket_fd = -1;
     s->to_stop_event = -1;
     s->socket_type = SocketTypeUndefined;
+
+    // notify about stop, everything is done
+    Utils::WriteEventFd(s->stopped_event, 1);
+}
+
+void DowowNetwork::Server::JoinThread() {
+    // check if never started
+    if (!server_thread) return;
+
+    server_thread->join();
+    delete server_thread;
+    server_thread = 0;
 }
 
 DowowNetwork::Server::Server() {
@@ -243,9 +252,12 @@ bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
     // create eventfd
     to_stop_event = eventfd(0, 0);
 
+    // reset the stopped event
+    Utils::ReadEventFd(stopped_event, 0);
+
     // start the thread
-    std::thread t(ServerThreadFunc, this);
-    t.detach();
+    JoinThread();
+    server_thread = new std::thread(ServerThreadFunc, this);
 
     return true;
 }
@@ -313,9 +325,12 @@ bool DowowNetwork::Server::StartTcp(std::string ip, uint16_t port) {
     // create eventfd
     to_stop_event = eventfd(0, 0);
 
+    // reset the stopped event
+    Utils::ReadEventFd(stopped_event, 0);
+
     // start the thread
-    std::thread t(ServerThreadFunc, this);
-    t.detach();
+    JoinThread();
+    server_thread = new std::thread(ServerThreadFunc, this);
 
     return true;
 }
@@ -379,11 +394,16 @@ DowowNetwork::SafeConnection *DowowNetwork::Server::GetConnection(uint32_t id) {
 }
 
 void DowowNetwork::Server::Stop(int timeout) {
-    // check if server is not started
-    if (GetType() == SocketTypeUndefined) return;
+    {
+        // lock, the event must not be closed meanwhile
+        std::lock_guard<typeof(mutex_server)> __sm(mutex_server);
+
+        // check if server is not started
+        if (GetType() == SocketTypeUndefined) return;
 
-    // make the thread stop
-    Utils::WriteEventFd(to_stop_event, 1);
+        // make the thread stop
+        Utils::WriteEventFd(to_stop_event, 1);
+    }
 
     WaitForStop(timeout);
 }
@@ -399,6 +419,7 @@ void DowowNetwork::Server::WaitForStop(int timeout) {
 DowowNetwork::Server::~Server() {
     // stop
     Stop(-1);
+    JoinThread();
 
     // close the stopped eventfd
     close(stopped_event);
diff --git a/Server.hpp b/Server.hpp
index 1221692..eeec32a 100644
--- a/Server.hpp
+++ b/Server.hpp
@@ -12,6 +12,7 @@
 
 #include <sys/eventfd.h>
 #include <mutex>
+#include <thread>
 
 #include "Connection.hpp"
 #include "SafeConnection.hpp"
@@ -70,6 +71,12 @@ namespace DowowNetwork {
         Connection* AcceptOne(uint32_t id);
 
         static void ServerThreadFunc(Server *server);
+
+        //! The thread of the server, null if it was never started.
+        std::thread *server_thread = 0;
+
+        //! Wait until the thread of the stopped server is finished.
+        void JoinThread();
     public:
         /// Server constructor.
         Server();
-- 
2.43.0


From c1834be60a4d7ddfa91a673bac187dbd03baac0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 44/55] fix: too long UNIX socket paths overran the address

---
 Client.cpp | 4 ++++
 Server.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/Client.cpp b/Client.cpp
index c8f4859..bc6bc81 100644
--- a/Client.cpp
+++ b/Client.cpp
@@ -154,6 +154,10 @@ bool DowowNetwork::Client::ConnectUnix(std::string socket_path, int timeout) {
     if (IsConnected() || IsConnecting())
         return false;
 
+    // check if the path is too long
+    if (socket_path.size() >= sizeof(sockaddr_un::sun_path))
+        return false;
+
     // temp socket fd
     temp_socket_fd =
         socket(AF_UNIX, SOCK_STREAM, 0);
diff --git a/Server.cpp b/Server.cpp
index 9f0a14a..05bd1de 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -204,6 +204,10 @@ bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
     if (GetType() != SocketTypeUndefined)
         return false;
 
+    // check if the path is too long
+    if (path.size() >= sizeof(sockaddr_un::sun_path))
+        return false;
+
     // try to create a socket
     socket_fd = socket(AF_UNIX, SOCK_STREAM, 0);
     // check if failed
-- 
2.43.0


From 072dc29c9b9dd486f7d3b3f47c99b71ebbd60aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 45/55] fix: the timeout of connecting was ignored

---
 Client.cpp | 56 ++++++++++++++++++++++++++++++------------------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/Client.cpp b/Client.cpp
index bc6bc81..9e06e76 100644
--- a/Client.cpp
+++ b/Client.cpp
@@ -4,6 +4,8 @@
 #include <arpa/inet.h>
 #include <endian.h>
 #include <unistd.h>
+#include <sys/socket.h>
+#include <sys/time.h>
 #include <sys/un.h>
 #include <sys/select.h>
 #include <sys/timerfd.h>
@@ -37,17 +39,14 @@ void DowowNetwork::Client::TcpThreadFunc(Client *c, std::string ip, uint16_t por
         return;
     }
 
-    // connect
-    int connect_res = connect(
-        c->temp_socket_fd,
-        (sockaddr*)&addr,
-        sizeof(addr));
-
-    // in progress
-    if (connect_res == -1 && errno == EINPROGRESS) {
-        // wait for result
-        connect_res = !Utils::SelectRead(c->temp_socket_fd, timeout);
-    }
+    // connect, go on if interrupted by a signal
+    int connect_res;
+    do {
+        connect_res = connect(
+            c->temp_socket_fd,
+            (sockaddr*)&addr,
+            sizeof(addr));
+    } while (connect_res == -1 && errno == EINTR);
 
     // fail
     if (connect_res) {
@@ -80,14 +79,11 @@ void DowowNetwork::Client::UnixThreadFunc(Client *c, std::string socket_path, in
     addr.sun_family = AF_UNIX;
     memcpy(addr.sun_path, socket_path.c_str(), socket_path.size() + 1);
 
-    // connect
-    int connect_res = connect(c->temp_socket_fd, (sockaddr*)&addr, sizeof(addr));
-
-    // in progress
-    if (connect_res == -1 && errno == EINPROGRESS) {
-        // wait for result
-        connect_res = !Utils::SelectRead(c->temp_socket_fd, timeout);
-    }
+    // connect, go on if interrupted by a signal
+    int connect_res;
+    do {
+        connect_res = connect(c->temp_socket_fd, (sockaddr*)&addr, sizeof(addr));
+    } while (connect_res == -1 && errno == EINTR);
 
     // fail
     if (connect_res) {
@@ -128,9 +124,14 @@ bool DowowNetwork::Client::ConnectTcp(std::string ip, uint16_t port, int timeout
     if (temp_socket_fd == -1)
         return false;
 
-    // make socket nonblocking
-    int nb_state = 1;
-    fcntl(temp_socket_fd, F_SETFL, nb_state);
+    // limit the time of connecting (zero is for no limit)
+    timeval connect_timeout { timeout > 0 ? timeout : 0, 0 };
+    setsockopt(
+        temp_socket_fd,
+        SOL_SOCKET,
+        SO_SNDTIMEO,
+        &connect_timeout,
+        sizeof(connect_timeout));
 
     // create event
     connect_event = eventfd(0, 0);
@@ -166,9 +167,14 @@ bool DowowNetwork::Client::ConnectUnix(std::string socket_path, int timeout) {
     if (temp_socket_fd == -1)
         return false;
 
-    // make socket nonblocking
-    int nb_state = 1;
-    fcntl(temp_socket_fd, F_SETFL, nb_state);
+    // limit the time of connecting (zero is for no limit)
+    timeval connect_timeout { timeout > 0 ? timeout : 0, 0 };
+    setsockopt(
+        temp_socket_fd,
+        SOL_SOCKET,
+        SO_SNDTIMEO,
+        &connect_timeout,
+        sizeof(connect_timeout));
 
     // create event
     connect_event = eventfd(0, 0);
-- 
2.43.0


From 8d02376bcdf037bd0571a66a5da7605d6ce94075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 46/55] fix: changing the limit of clients had no effect until
 something else happened

---
 Server.cpp | 39 ++++++++++++++++++++++++---------------
 Server.hpp |  7 +++++++
 2 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index 05bd1de..3657ec0 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -46,33 +46,34 @@ DowowNetwork::Connection* DowowNetwork::Server::AcceptOne(uint32_t id) {
     return conn;
 }
 
+bool DowowNetwork::Server::CanAccept() {
+    return
+        max_connections < 0 ||
+        static_cast<int32_t>(connections.size()) < max_connections;
+}
+
 void DowowNetwork::Server::ServerThreadFunc(Server *s) {
     // free id for a new connection
     uint32_t free_conn_id = 1;
 
     // infinite loop
     while (true) {
-        // whether should accept new clients
-        bool accept_new = true;
-        if (s->max_connections >= 0) {
-            accept_new =
-                static_cast<int32_t>(s->connections.size()) <
-                s->max_connections;
-        }
-
-        pollfd *pollfds = new pollfd[2 + s->connections.size()]();
+        pollfd *pollfds = new pollfd[3 + s->connections.size()]();
         // server socket
-        pollfds[0].fd = accept_new ? s->socket_fd : -1;
+        pollfds[0].fd = s->CanAccept() ? s->socket_fd : -1;
         pollfds[0].events = POLLIN;
         // 'to_stop' event
         pollfds[1].fd = s->to_stop_event;
         pollfds[1].events = POLLIN;
+        // 'limit is changed' event
+        pollfds[2].fd = s->limit_event;
+        pollfds[2].events = POLLIN;
 
         // ask all connections for a 'closed' event
         size_t i = 0;
         for (auto c : s->connections) {
-            pollfds[2 + i].fd = c->GetStoppedEvent();
-            pollfds[2 + i].events = POLLIN;
+            pollfds[3 + i].fd = c->GetStoppedEvent();
+            pollfds[3 + i].events = POLLIN;
             ++i;
         }
 
@@ -80,7 +81,7 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         // (not longer than 50 ms if waiting for references to be released)
         poll(
             pollfds,
-            2 + s->connections.size(),
+            3 + s->connections.size(),
             s->referenced_connections.size() ? 50 : -1);
 
         // lock
@@ -102,7 +103,7 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         std::list<Connection*> deleted_conns;
         i = 0;
         for (auto c : s->connections) {
-            if (pollfds[2 + i++].revents & POLLIN) {
+            if (pollfds[3 + i++].revents & POLLIN) {
                 // call 'disconnected' handler if set
                 if (s->GetDisconnectedHandler())
                     (*s->GetDisconnectedHandler())(s, c);
@@ -127,7 +128,9 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         // ***********************
         // check if new connection
         // ***********************
-        if (pollfds[0].revents & POLLIN) {
+        // (the limit might have been changed)
+        Utils::ReadEventFd(s->limit_event, 0);
+        if ((pollfds[0].revents & POLLIN) && s->CanAccept()) {
             // accept
             Connection *new_conn = s->AcceptOne(free_conn_id);
             // not an error
@@ -194,6 +197,7 @@ void DowowNetwork::Server::JoinThread() {
 
 DowowNetwork::Server::Server() {
     stopped_event = eventfd(0, 0);
+    limit_event = eventfd(0, 0);
 }
 
 bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
@@ -359,6 +363,9 @@ uint8_t DowowNetwork::Server::GetType() {
 
 void DowowNetwork::Server::SetMaxConnections(int32_t c) {
     max_connections = c;
+
+    // let the thread know about it
+    Utils::WriteEventFd(limit_event, 1);
 }
 
 int32_t DowowNetwork::Server::GetMaxConnections() {
@@ -427,4 +434,6 @@ DowowNetwork::Server::~Server() {
 
     // close the stopped eventfd
     close(stopped_event);
+    // close the limit eventfd
+    close(limit_event);
 }
diff --git a/Server.hpp b/Server.hpp
index eeec32a..8940ad9 100644
--- a/Server.hpp
+++ b/Server.hpp
@@ -54,6 +54,10 @@ namespace DowowNetwork {
         //! Occurs when the server shutdown is requested.
         int to_stop_event = -1;
 
+        //! 'limit is changed' event.
+        //! Occurs when the maximum amount of clients is changed.
+        int limit_event = -1;
+
         // mutex for the list of connections
         std::recursive_mutex mutex_connections;
         // mutex for any operations
@@ -67,6 +71,9 @@ namespace DowowNetwork {
         //! Called
         ConnectionHandler disconnected_handler = 0;
 
+        /// Is the limit of clients not reached?
+        bool CanAccept();
+
         /// Accept one client and give it the id.
         Connection* AcceptOne(uint32_t id);
 
-- 
2.43.0


From f9c0618dbfc1a58674940b0e61be3282938dc2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 47/55] fix: GetTcpPort returned 0 when the port was chosen by
 the system

---
 Server.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Server.cpp b/Server.cpp
index 3657ec0..5280509 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -329,6 +329,10 @@ bool DowowNetwork::Server::StartTcp(std::string ip, uint16_t port) {
     socket_type = SocketTypeTcp;
     tcp_socket_address = be32toh(addr.sin_addr.s_addr);
     tcp_socket_port = port;
+    // the port was chosen by the system
+    socklen_t addr_len = sizeof(addr);
+    if (!port && !getsockname(socket_fd, reinterpret_cast<sockaddr*>(&addr), &addr_len))
+        tcp_socket_port = be16toh(addr.sin_port);
 
     // create eventfd
     to_stop_event = eventfd(0, 0);
-- 
2.43.0


From 42910dcedc10b496af83bc3c75144d78ff21928f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:00 +0000
Subject: [PATCH 48/55] fix: Push did not wait for the response

---
 Connection.cpp | 53 ++++++++++++++++++++++++++++++++++++++++++++++----
 Connection.hpp | 19 ++++++++++++++++++
 2 files changed, 68 insertions(+), 4 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index fa6e7f3..0bc70ec 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -148,6 +148,10 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
     c->is_receive_finished = true;
     if (c->receive_event != -1)
         Utils::WriteEventFd(c->receive_event, 1);
+    // ... and the Push() callers that there is no response
+    for (auto w : c->response_waiters)
+        Utils::WriteEventFd(w->event, 1);
+    c->response_waiters.clear();
     c->mutex_rq.unlock();
 
     // lock the reference counter
@@ -207,6 +211,23 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
     Utils::WriteEventFd(c->stopped_event, 1);
 }
 
+bool DowowNetwork::Connection::PassThroughWaiters(Request* r) {
+    // lock
+    MTLock(__mrq, mutex_rq);
+
+    for (auto it = response_waiters.begin(); it != response_waiters.end(); ++it) {
+        ResponseWaiter *w = *it;
+        if (w->id != r->GetId()) continue;
+        // this is the response
+        response_waiters.erase(it);
+        w->response = r;
+        Utils::WriteEventFd(w->event, 1);
+        return true;
+    }
+
+    return false;
+}
+
 bool DowowNetwork::Connection::PassThroughHandlers(Request* r) {
     // no request
     if (!r) return false;
@@ -345,7 +366,8 @@ bool DowowNetwork::Connection::Receive() {
                     if (req->GetName() == "_") {
                         // just delete it
                         delete req;
-                    } else {
+                    } else if (!PassThroughWaiters(req)) {
+                        // nobody waits for it,
                         // try to process using handlers
                         if (!PassThroughHandlers(req)) {
                             mutex_rq.lock();
@@ -590,7 +612,7 @@ time_t DowowNetwork::Connection::GetTheirNaIntervalLimit() {
 
 DowowNetwork::Request* DowowNetwork::Connection::Push(Request* req, bool must_copy, int timeout, bool change_request_id) {
     // lock, the state must not change until the request is in the queue
-    MTLock(__mcd, mutex_cd);
+    std::unique_lock<typeof(mutex_cd)> __mcd(mutex_cd);
 
     // not connected or disconnecting
     if (!IsConnected() || IsDisconnecting()) {
@@ -601,7 +623,7 @@ DowowNetwork::Request* DowowNetwork::Connection::Push(Request* req, bool must_co
     }
 
     // lock the send queue
-    MTLock(__msq, mutex_sq);
+    std::unique_lock<typeof(mutex_sq)> __msq(mutex_sq);
 
     // copy the request if needed
     if (must_copy) {
@@ -624,13 +646,36 @@ DowowNetwork::Request* DowowNetwork::Connection::Push(Request* req, bool must_co
         free_request_id += 2;
     }
 
+    // get ready for the response before the request can be sent
+    ResponseWaiter waiter { req_id, -1, 0 };
+    if (timeout) {
+        waiter.event = eventfd(0, 0);
+        MTLock(__mrq, mutex_rq);
+        response_waiters.push_back(&waiter);
+    }
+
     // push to queue
     send_queue.push(req);
 
     // notify the thread
     Utils::WriteEventFd(push_event, 1);
 
-    return 0;
+    // not waiting for the response
+    if (!timeout) return 0;
+
+    // the connection must not be blocked while waiting
+    __msq.unlock();
+    __mcd.unlock();
+
+    // wait, the timeout is in seconds
+    Utils::SelectRead(waiter.event, timeout);
+
+    // not waiting anymore
+    MTLock(__mrq, mutex_rq);
+    response_waiters.remove(&waiter);
+    close(waiter.event);
+
+    return waiter.response;
 }
 
 DowowNetwork::Request* DowowNetwork::Connection::Push(const Request& req, int timeout, bool change_request_id) {
diff --git a/Connection.hpp b/Connection.hpp
index e1ce28d..e4a3616 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -12,6 +12,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <map>
+#include <list>
 
 #ifdef DUMP_CONNECTIONS
 #include <fstream>
@@ -96,6 +97,17 @@ namespace DowowNetwork {
         uint32_t recv_buffer_offset = 0;
         //! The queue of the received requests.
         std::queue<Request*> recv_queue;
+        //! A Push() call that waits for the response.
+        struct ResponseWaiter {
+            //! The ID of the request, the response has the same one.
+            uint32_t id;
+            //! Notified when there is nothing to wait for anymore.
+            int event;
+            //! The response.
+            Request* response;
+        };
+        //! The Push() calls that wait for the response (see mutex_rq).
+        std::list<ResponseWaiter*> response_waiters;
         //! Is the receive queue not going to be filled anymore?
         bool is_receive_finished = true;
         //! Is receiving the request length right now?
@@ -146,6 +158,13 @@ namespace DowowNetwork {
         //! /return send_buffer || send_queue.size()
         bool HasSomethingToSend();
 
+        //! Pass the Request to the Push() call that waits for it.
+        /*!
+            \return
+                Was the Request a response somebody waited for?
+        */
+        bool PassThroughWaiters(Request* req);
+
         //! Pass the Requests through assigned handlers.
         /*!
             \return
-- 
2.43.0


From 901d004cf3a95d56363b76b43b9f2840b6c3c878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:48 +0000
Subject: [PATCH 49/55] fix: a graceful disconnection is not cut short by what
 the peer sends meanwhile

---
 Connection.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Connection.cpp b/Connection.cpp
index 0bc70ec..ac6e4ad 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -88,7 +88,9 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
         // socket events
         // *************
         if (pollfds[1].revents & POLLIN) {
-            if (!c->Receive()) {
+            // (if the graceful disconnection was requested meanwhile, then
+            // it does not matter, but the rest still has to be sent)
+            if (!c->Receive() && !c->IsDisconnecting()) {
                 // error
                 break;
             }
-- 
2.43.0


From c70441ce51b07fcf25442b0af57873469b92e813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:08 +0000
Subject: [PATCH 50/55] fix: an interrupted connect gives up when its time is
 over

---
 Client.cpp | 47 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/Client.cpp b/Client.cpp
index 9e06e76..abedba1 100644
--- a/Client.cpp
+++ b/Client.cpp
@@ -13,6 +13,7 @@
 #include <sys/poll.h>
 #include <time.h>
 #include <fcntl.h>
+#include <chrono>
 #include <thread>
 #include <errno.h>
 
@@ -21,6 +22,31 @@ using namespace std;
 
 #include "Utils.hpp"
 
+static int ConnectSocket(int fd, const sockaddr *addr, socklen_t addr_len, int timeout) {
+    // get the moment of timing out
+    auto end = std::chrono::steady_clock::now() + std::chrono::seconds(timeout);
+
+    while (true) {
+        int res = connect(fd, addr, addr_len);
+        // being interrupted is not an error
+        if (res != -1 || errno != EINTR) return res;
+        // no timeout
+        if (timeout <= 0) continue;
+
+        // go on for the time left
+        int64_t left = std::chrono::duration_cast<std::chrono::microseconds>(
+            end - std::chrono::steady_clock::now()).count();
+        if (left <= 0) return -1;
+        timeval left_timeout { left / 1000000, left % 1000000 };
+        setsockopt(
+            fd,
+            SOL_SOCKET,
+            SO_SNDTIMEO,
+            &left_timeout,
+            sizeof(left_timeout));
+    }
+}
+
 void DowowNetwork::Client::TcpThreadFunc(Client *c, std::string ip, uint16_t port, int timeout) {
     // connection in progress
     std::lock_guard<std::mutex> __tsfdm(c->mutex_tsfd);
@@ -40,13 +66,11 @@ void DowowNetwork::Client::TcpThreadFunc(Client *c, std::string ip, uint16_t por
     }
 
     // connect, go on if interrupted by a signal
-    int connect_res;
-    do {
-        connect_res = connect(
-            c->temp_socket_fd,
-            (sockaddr*)&addr,
-            sizeof(addr));
-    } while (connect_res == -1 && errno == EINTR);
+    int connect_res = ConnectSocket(
+        c->temp_socket_fd,
+        (sockaddr*)&addr,
+        sizeof(addr),
+        timeout);
 
     // fail
     if (connect_res) {
@@ -80,10 +104,11 @@ void DowowNetwork::Client::UnixThreadFunc(Client *c, std::string socket_path, in
     memcpy(addr.sun_path, socket_path.c_str(), socket_path.size() + 1);
 
     // connect, go on if interrupted by a signal
-    int connect_res;
-    do {
-        connect_res = connect(c->temp_socket_fd, (sockaddr*)&addr, sizeof(addr));
-    } while (connect_res == -1 && errno == EINTR);
+    int connect_res = ConnectSocket(
+        c->temp_socket_fd,
+        (sockaddr*)&addr,
+        sizeof(addr),
+        timeout);
 
     // fail
     if (connect_res) {
-- 
2.43.0


From ca0f4fcd77b5e115ca3406a7c520ffccc1a7455e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:13 +0000
Subject: [PATCH 51/55] fix: a copied SafeConnection is a reference, too

---
 SafeConnection.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/SafeConnection.hpp b/SafeConnection.hpp
index 364bdfb..ae6df4a 100644
--- a/SafeConnection.hpp
+++ b/SafeConnection.hpp
@@ -15,6 +15,17 @@ namespace DowowNetwork {
                 c->IncreaseRefs();
             }
 
+            // a copy is a reference, too
+            inline SafeConnection(const SafeConnection& original) : SafeConnection(original.c) {}
+
+            inline SafeConnection& operator=(const SafeConnection& original) {
+                // increase first, it might be the same connection
+                original.c->IncreaseRefs();
+                c->DecreaseRefs();
+                c = original.c;
+                return *this;
+            }
+
             inline Connection& operator()() {
                 return *c;
             }
-- 
2.43.0


From 6501f71e649bba6cfb42d2df83da786a219ac24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:25 +0000
Subject: [PATCH 52/55] fix: an empty path is not a UNIX endpoint

StartUnix("") reported success for an abstract address made of
uninitialised memory, which nobody could connect to.
---
 Client.cpp | 4 ++--
 Server.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Client.cpp b/Client.cpp
index abedba1..cc572bf 100644
--- a/Client.cpp
+++ b/Client.cpp
@@ -180,8 +180,8 @@ bool DowowNetwork::Client::ConnectUnix(std::string socket_path, int timeout) {
     if (IsConnected() || IsConnecting())
         return false;
 
-    // check if the path is too long
-    if (socket_path.size() >= sizeof(sockaddr_un::sun_path))
+    // check if the path is empty or too long
+    if (socket_path.empty() || socket_path.size() >= sizeof(sockaddr_un::sun_path))
         return false;
 
     // temp socket fd
diff --git a/Server.cpp b/Server.cpp
index 5280509..befb014 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -208,8 +208,8 @@ bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
     if (GetType() != SocketTypeUndefined)
         return false;
 
-    // check if the path is too long
-    if (path.size() >= sizeof(sockaddr_un::sun_path))
+    // check if the path is empty or too long
+    if (path.empty() || path.size() >= sizeof(sockaddr_un::sun_path))
         return false;
 
     // try to create a socket
-- 
2.43.0


From 1b45827771690b3779f3229ae827b3c32bd108a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:58 +0000
Subject: [PATCH 53/55] fix: no descriptors left when a connection starts

A connection without its events and timers could not be stopped or noticed
to have ended, so Server::Stop() and destructors hung; connecting returned
false and the connection came into being afterwards.
---
 Client.cpp     | 24 ++++++++++++++++++++----
 Connection.cpp | 37 +++++++++++++++++++++++++++++--------
 Connection.hpp |  8 +++++++-
 Server.cpp     |  6 ++++++
 4 files changed, 62 insertions(+), 13 deletions(-)

diff --git a/Client.cpp b/Client.cpp
index cc572bf..4c0acd7 100644
--- a/Client.cpp
+++ b/Client.cpp
@@ -82,8 +82,9 @@ void DowowNetwork::Client::TcpThreadFunc(Client *c, std::string ip, uint16_t por
         return;
     }
 
-    // connected
-    c->InitializeByFD(c->temp_socket_fd);
+    // connected, close if there are no descriptors left
+    if (!c->InitializeByFD(c->temp_socket_fd))
+        close(c->temp_socket_fd);
     // unset temp socket fd
     c->temp_socket_fd = -1;
 
@@ -120,8 +121,9 @@ void DowowNetwork::Client::UnixThreadFunc(Client *c, std::string socket_path, in
         return;
     }
 
-    // connected
-    c->InitializeByFD(c->temp_socket_fd);
+    // connected, close if there are no descriptors left
+    if (!c->InitializeByFD(c->temp_socket_fd))
+        close(c->temp_socket_fd);
     c->temp_socket_fd = -1;
 
     // request part setup
@@ -161,6 +163,13 @@ bool DowowNetwork::Client::ConnectTcp(std::string ip, uint16_t port, int timeout
     // create event
     connect_event = eventfd(0, 0);
 
+    // no descriptors left
+    if (connect_event == -1) {
+        close(temp_socket_fd);
+        temp_socket_fd = -1;
+        return false;
+    }
+
     std::thread t(TcpThreadFunc, this, ip, port, timeout);
     t.detach();
 
@@ -204,6 +213,13 @@ bool DowowNetwork::Client::ConnectUnix(std::string socket_path, int timeout) {
     // create event
     connect_event = eventfd(0, 0);
 
+    // no descriptors left
+    if (connect_event == -1) {
+        close(temp_socket_fd);
+        temp_socket_fd = -1;
+        return false;
+    }
+
     // create a thread for connection
     std::thread t(UnixThreadFunc, this, socket_path, timeout);
     t.detach();
diff --git a/Connection.cpp b/Connection.cpp
index ac6e4ad..0360bf1 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -494,13 +494,13 @@ bool DowowNetwork::Connection::PopSendQueue() {
     return true;
 }
 
-void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
+bool DowowNetwork::Connection::InitializeByFD(int socket_fd) {
     // lock
     MTLock(__mcd, mutex_cd);
     MTLock(__mbt, mutex_bt);
 
     // do nothing if already connected
-    if (IsConnected()) return;
+    if (IsConnected()) return false;
 
     // check if background thread exists
     if (background_thread) {
@@ -512,6 +512,10 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
         background_thread = 0;
     }
 
+    // there were no descriptors left when constructing
+    if (stopped_event == -1)
+        stopped_event = eventfd(0, 0);
+
     // get the type
     int socket_domain;
     socklen_t len = sizeof(socket_domain);
@@ -524,17 +528,15 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
     );
 
     // determine the type
+    uint8_t new_socket_type;
     switch (socket_domain) {
-        case AF_UNIX: socket_type = SocketTypeUnix; break;
-        case AF_INET: socket_type = SocketTypeTcp; break;
+        case AF_UNIX: new_socket_type = SocketTypeUnix; break;
+        case AF_INET: new_socket_type = SocketTypeTcp; break;
         // the type is not supported
         default:
-            return;
+            return false;
     }
 
-    // reset the stopped event
-    Utils::ReadEventFd(stopped_event, 0);
-
     // initialize the events
     push_event = eventfd(0, 0);
     to_stop_event = eventfd(0, 0);
@@ -544,6 +546,23 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
     our_sa_timer = timerfd_create(CLOCK_MONOTONIC, TFD_NONBLOCK);
     their_na_timer = timerfd_create(CLOCK_MONOTONIC, TFD_NONBLOCK);
 
+    // no descriptors left, the connection could not even be stopped
+    if (stopped_event == -1 || push_event == -1 || to_stop_event == -1 ||
+        our_sa_timer == -1 || their_na_timer == -1)
+    {
+        for (int *fd : { &push_event, &to_stop_event, &our_sa_timer, &their_na_timer }) {
+            if (*fd != -1) close(*fd);
+            *fd = -1;
+        }
+        return false;
+    }
+
+    // reset the stopped event
+    Utils::ReadEventFd(stopped_event, 0);
+
+    // connected from now on
+    socket_type = new_socket_type;
+
     // start the timers
     Utils::SetTimerFdTimeout(our_sa_timer, our_sa_interval);
     Utils::SetTimerFdTimeout(their_na_timer, their_na_interval);
@@ -568,6 +587,8 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
 
     // create the background thread
     background_thread = new std::thread(ConnThreadFunc, this);
+
+    return true;
 }
 
 void DowowNetwork::Connection::SetEvenRequestIdsPart(bool state) {
diff --git a/Connection.hpp b/Connection.hpp
index e4a3616..6945348 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -30,6 +30,8 @@
 namespace DowowNetwork {
     // Predeclare the connection for typedef
     class Connection;
+    // Predeclare the server, it must know if the connection could be started
+    class Server;
 
     //! Request-related handler prototype.
     /*!
@@ -40,6 +42,7 @@ namespace DowowNetwork {
 
     //! A connection between two endpoints.
     class Connection {
+        friend class Server;
     private:
         //! mutex for send queue
         std::recursive_mutex mutex_sq;
@@ -217,9 +220,12 @@ namespace DowowNetwork {
          *  - Resets the free request id (even/odd is not touched).
          *  - Clears the receive queue.
          *  - Starts the background thread.
+         *  \return true on success, false if already connected, the domain
+         *          is not supported or there are no descriptors left (the
+         *          socket is not closed then).
          *  \warning Not MT-Safe!
          */
-        void InitializeByFD(int socket_fd);
+        bool InitializeByFD(int socket_fd);
 
         //! Set the even or odd request ids part.
         void SetEvenRequestIdsPart(bool state);
diff --git a/Server.cpp b/Server.cpp
index befb014..0cc3098 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -29,6 +29,12 @@ DowowNetwork::Connection* DowowNetwork::Server::AcceptOne(uint32_t id) {
 
     // create a connection
     Connection *conn = new Connection(temp_fd);
+    // no descriptors left for it, turn the client away
+    if (!conn->background_thread) {
+        delete conn;
+        close(temp_fd);
+        return 0;
+    }
     // assign the id
     conn->id = id;
 
-- 
2.43.0


From 0965ccc055b16a6cad8bb92f6893bd0220c2f797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:58 +0000
Subject: [PATCH 54/55] fix: no descriptors left when a server starts

Start reported success for a server that could never be stopped.
---
 Server.cpp | 37 +++++++++++++++++++++++++++++++------
 Server.hpp |  4 ++++
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index 0cc3098..b65e460 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -206,6 +206,22 @@ DowowNetwork::Server::Server() {
     limit_event = eventfd(0, 0);
 }
 
+bool DowowNetwork::Server::CreateEvents() {
+    // might have failed when constructing
+    if (stopped_event == -1)
+        stopped_event = eventfd(0, 0);
+    if (limit_event == -1)
+        limit_event = eventfd(0, 0);
+
+    // no descriptors left
+    if (stopped_event == -1 || limit_event == -1)
+        return false;
+
+    // create eventfd
+    to_stop_event = eventfd(0, 0);
+    return to_stop_event != -1;
+}
+
 bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
     // lock
     std::lock_guard<typeof(mutex_server)> __sm(mutex_server);
@@ -259,13 +275,18 @@ bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
         return false;
     }
 
+    // create the events
+    if (!CreateEvents()) {
+        // fail
+        close(socket_fd);
+        unlink(path.c_str());
+        return false;
+    }
+
     // success
     socket_type = SocketTypeUnix;
     unix_socket_path = path;
 
-    // create eventfd
-    to_stop_event = eventfd(0, 0);
-
     // reset the stopped event
     Utils::ReadEventFd(stopped_event, 0);
 
@@ -331,6 +352,13 @@ bool DowowNetwork::Server::StartTcp(std::string ip, uint16_t port) {
         return false;
     }
 
+    // create the events
+    if (!CreateEvents()) {
+        // fail
+        close(socket_fd);
+        return false;
+    }
+
     // success
     socket_type = SocketTypeTcp;
     tcp_socket_address = be32toh(addr.sin_addr.s_addr);
@@ -340,9 +368,6 @@ bool DowowNetwork::Server::StartTcp(std::string ip, uint16_t port) {
     if (!port && !getsockname(socket_fd, reinterpret_cast<sockaddr*>(&addr), &addr_len))
         tcp_socket_port = be16toh(addr.sin_port);
 
-    // create eventfd
-    to_stop_event = eventfd(0, 0);
-
     // reset the stopped event
     Utils::ReadEventFd(stopped_event, 0);
 
diff --git a/Server.hpp b/Server.hpp
index 8940ad9..e8dc605 100644
--- a/Server.hpp
+++ b/Server.hpp
@@ -82,6 +82,10 @@ namespace DowowNetwork {
         //! The thread of the server, null if it was never started.
         std::thread *server_thread = 0;
 
+        //! Create the events needed for running.
+        //! \return false if there are no descriptors left.
+        bool CreateEvents();
+
         //! Wait until the thread of the stopped server is finished.
         void JoinThread();
     public:
-- 
2.43.0


From f62e050d054df013584afe516932c205906f725e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:58 +0000
Subject: [PATCH 55/55] fix: no descriptors left for a waiting call

Push() and Pull() without a time limit never returned, not even when the
connection ended, and a connection never noticed that its last reference
was released.
---
 Connection.cpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 0360bf1..31d2aa6 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -165,11 +165,14 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
         // wait until the Connection is not needed anymore,
         // the code that references it must not be blocked meanwhile
         c->mutex_ra.unlock();
-        Utils::SelectRead(c->not_needed_event, -1);
+        // (if there are no descriptors left then just check it again later)
+        Utils::SelectRead(
+            c->not_needed_event,
+            c->not_needed_event == -1 ? 1 : -1);
         c->mutex_ra.lock();
 
         // close the event
-        close(c->not_needed_event);
+        if (c->not_needed_event != -1) close(c->not_needed_event);
         c->not_needed_event = -1;
     }
     // unlock the reference counter
@@ -655,6 +658,17 @@ DowowNetwork::Request* DowowNetwork::Connection::Push(Request* req, bool must_co
         req = copy;
     }
 
+    // get ready for waiting for the response
+    ResponseWaiter waiter { 0, -1, 0 };
+    if (timeout) {
+        waiter.event = eventfd(0, 0);
+        // no descriptors left
+        if (waiter.event == -1) {
+            delete req;
+            return 0;
+        }
+    }
+
     // the id used
     uint32_t req_id = req->GetId();
     // must change the request id
@@ -669,10 +683,9 @@ DowowNetwork::Request* DowowNetwork::Connection::Push(Request* req, bool must_co
         free_request_id += 2;
     }
 
-    // get ready for the response before the request can be sent
-    ResponseWaiter waiter { req_id, -1, 0 };
+    // wait for the response before the request can be sent
     if (timeout) {
-        waiter.event = eventfd(0, 0);
+        waiter.id = req_id;
         MTLock(__mrq, mutex_rq);
         response_waiters.push_back(&waiter);
     }
@@ -742,6 +755,12 @@ DowowNetwork::Request* DowowNetwork::Connection::Pull(int timeout) {
     // set up receive event
     receive_event = eventfd(0, 0);
 
+    // no descriptors left
+    if (receive_event == -1) {
+        mutex_rq.unlock();
+        return 0;
+    }
+
     // unlock
     mutex_rq.unlock();
 
-- 
2.43.0


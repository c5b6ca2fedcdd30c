From a65fb352a31c73844880da1108782374acc2c2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:01 +0000
Subject: [PATCH 01/31] fix: round shift instruction must not run into clear
 shift

---
 simulator/processor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index a8f9459..a92e9fc 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -278,6 +278,7 @@ bool Processor::step()
             core.L = core.S & ONEBIT(26);
             break;
         }
+        break;
     }
 
     case 077'00: {
-- 
2.43.0


From 1e79b9f804b345d7dd6a402f032e970c8d7568f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:15 +0000
Subject: [PATCH 02/31] fix: reject shift amounts above the word length

---
 simulator/processor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index a92e9fc..c730ea0 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -258,6 +258,8 @@ bool Processor::step()
     case 067'14: {
         // Round shift to the right, 1P amount rr E
         unsigned amount = addr & 037;
+        if (amount > 27)
+            goto unknown;
         switch (addr >> 5) {
         case 0: // AA
             core.A = (core.A >> amount | core.A << (27 - amount)) & BITS(27);
@@ -284,6 +286,8 @@ bool Processor::step()
     case 077'00: {
         // Clear shift to the right, 3P amount rr
         unsigned amount = addr & 037;
+        if (amount > 27)
+            goto unknown;
         switch (addr >> 5) {
         case 0: // AA
             core.A = (core.A >> amount | -(core.A >> 26) << (27 - amount)) & BITS(27);
-- 
2.43.0


From fad931820fcc8657690bc77f95ff43b511c66976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:18 +0000
Subject: [PATCH 03/31] fix: apply the stack size limit to every push

---
 simulator/virtual_stack.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simulator/virtual_stack.cpp b/simulator/virtual_stack.cpp
index 68a6440..b6851f7 100644
--- a/simulator/virtual_stack.cpp
+++ b/simulator/virtual_stack.cpp
@@ -543,6 +543,9 @@ void Virtual_Stack::push(const Stack_Cell &item)
 
 void Virtual_Stack::push(Cell_Type type, uint64_t value)
 {
+    if (storage.size() >= SIZE_LIMIT) {
+        throw std::runtime_error("Stack overflow");
+    }
     storage.push_back({});
     auto &item = storage.back();
     item.type  = type;
-- 
2.43.0


From 6a1e95f5d524a8f895c9003ea1bf07d4a80491e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:41 +0000
Subject: [PATCH 04/31] fix: report access to the top of an empty stack

---
 simulator/virtual_stack.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/simulator/virtual_stack.h b/simulator/virtual_stack.h
index 03c2cc6..4c65db9 100644
--- a/simulator/virtual_stack.h
+++ b/simulator/virtual_stack.h
@@ -1,6 +1,8 @@
 #ifndef X1_VIRTUAL_STACK_H
 #define X1_VIRTUAL_STACK_H
 
+#include <stdexcept>
+#include <string>
 #include <vector>
 
 #include "x1_arch.h"
@@ -77,10 +79,22 @@ public:
     unsigned count() const { return storage.size(); }
 
     // Get the top of the stack.
-    Stack_Cell &top() { return storage.back(); }
+    Stack_Cell &top()
+    {
+        if (storage.empty()) {
+            throw std::runtime_error("Stack is empty");
+        }
+        return storage.back();
+    }
 
     // Remove all items (but don't deallocate).
-    void erase(unsigned ptr) { storage.erase(storage.begin() + ptr, storage.end()); }
+    void erase(unsigned ptr)
+    {
+        if (ptr > storage.size()) {
+            throw std::runtime_error("No item #" + std::to_string(ptr) + " in stack");
+        }
+        storage.erase(storage.begin() + ptr, storage.end());
+    }
 
     // Remove one item from stack, and return it as cell.
     Stack_Cell pop();
-- 
2.43.0


From 71232bea6bc4935dc6e89070deba9a4d544c27e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:58 +0000
Subject: [PATCH 05/31] fix: check block level of goto adjustment

---
 simulator/opcodes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 8435906..8de742b 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -227,7 +227,7 @@ bool Processor::call_opc(unsigned opc)
         // goto adjustment
         // Exit to block level given in register B.
         frame_ptr = last_frame_ptr;
-        roll_back(display[core.B]);
+        roll_back(get_display(core.B));
         break;
 
     case OPC_SSI: {
-- 
2.43.0


From caba61a60a4379ea9b1a630efe9b5f70659bf7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:01 +0000
Subject: [PATCH 06/31] fix: a killed compiler is a failure

---
 simulator/machine.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index 68047a3..5290665 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -309,6 +309,9 @@ void Machine::run_program(const std::string &prog_path, const std::vector<std::s
         throw std::runtime_error("Lost child process #" + std::to_string(pid));
     }
 
+    if (!WIFEXITED(wait_status)) {
+        throw std::runtime_error("Compiler terminated abnormally");
+    }
     int exit_code = WEXITSTATUS(wait_status);
     switch (exit_code) {
     case STATUS_OK:
-- 
2.43.0


From e28e545f8a447681d85fe29e6020bfbbc5f0c084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:34 +0000
Subject: [PATCH 07/31] fix: report an unwritable trace file as an error

---
 simulator/main.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simulator/main.cpp b/simulator/main.cpp
index b9880c0..ee6dc33 100644
--- a/simulator/main.cpp
+++ b/simulator/main.cpp
@@ -59,6 +59,7 @@ int main(int argc, char *argv[])
     machine.set_compiler("x1algc");
 
     // Parse command line options.
+    const char *trace_file = nullptr;
     for (;;) {
         switch (getopt_long(argc, argv, "-hVT:d", long_options, nullptr)) {
         case EOF:
@@ -84,8 +85,7 @@ int main(int argc, char *argv[])
 
         case 'T':
             // Redirect tracing to given file.
-            Machine::redirect_trace(optarg);
-            Machine::get_trace_stream() << "X1 Algol Simulator Version: " << VERSION_STRING << "\n";
+            trace_file = optarg;
             continue;
 
         case 'd':
@@ -107,6 +107,10 @@ int main(int argc, char *argv[])
     }
 
     try {
+        if (trace_file != nullptr) {
+            Machine::redirect_trace(trace_file);
+            Machine::get_trace_stream() << "X1 Algol Simulator Version: " << VERSION_STRING << "\n";
+        }
         if (machine.input_file_count() == 1) {
             machine.find_default_library(argv[0]);
         }
-- 
2.43.0


From e4ee38d5431a31611f38bd534cce96f176cbbeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:36 +0000
Subject: [PATCH 08/31] fix: option --debug takes no argument

---
 simulator/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/main.cpp b/simulator/main.cpp
index ee6dc33..99b8259 100644
--- a/simulator/main.cpp
+++ b/simulator/main.cpp
@@ -13,7 +13,7 @@ static const struct option long_options[] = {
     { "help",           no_argument,        nullptr,    'h' },
     { "version",        no_argument,        nullptr,    'V' },
     { "trace",          required_argument,  nullptr,    'T' },
-    { "debug",          required_argument,  nullptr,    'd' },
+    { "debug",          no_argument,        nullptr,    'd' },
     { nullptr },
     // clang-format on
 };
-- 
2.43.0


From 5606d03963812038a74dcb732e0d03364de034a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:01 +0000
Subject: [PATCH 09/31] fix: detect overflow of integer exponentiation

---
 simulator/virtual_stack.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/simulator/virtual_stack.cpp b/simulator/virtual_stack.cpp
index b6851f7..e4ddd57 100644
--- a/simulator/virtual_stack.cpp
+++ b/simulator/virtual_stack.cpp
@@ -276,13 +276,20 @@ void Stack_Cell::subtract(const Stack_Cell &another)
 //
 static int power(int x, unsigned n)
 {
-    int result = 1;
+    const int64_t limit = BITS(26);
+    int64_t result      = 1;
+    int64_t factor      = x;
     while (n) {
         if (n & 1) {
-            result *= x;
+            result *= factor;
         }
         n = n >> 1;
-        x *= x;
+        if (n) {
+            factor *= factor;
+        }
+        if (result < -limit || result > limit || factor > limit) {
+            throw std::runtime_error("Overflow in integer arithmetic");
+        }
     }
     return result;
 }
-- 
2.43.0


From 51d30cb4a892d6fd9e8bf841839e0b1d2af88a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:04 +0000
Subject: [PATCH 10/31] fix: infinite result is an overflow in real arithmetic

---
 simulator/x1_arch.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simulator/x1_arch.cpp b/simulator/x1_arch.cpp
index a5d6037..30813c4 100644
--- a/simulator/x1_arch.cpp
+++ b/simulator/x1_arch.cpp
@@ -36,6 +36,10 @@ Real ieee_to_x1(long double input)
         input = -input;
     }
 
+    if (!std::isfinite(input)) {
+        throw std::runtime_error("Overflow in real arithmetic");
+    }
+
     // Split into mantissa and exponent.
     int exponent;
     long double mantissa = frexpl(input, &exponent);
-- 
2.43.0


From acfb261e2a56e3cd5988bdded82b8e4d47ea5aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:58 +0000
Subject: [PATCH 11/31] fix: detect overflow when rounding a real to an integer

---
 simulator/opcodes.cpp   |  4 ++--
 simulator/processor.cpp |  2 +-
 simulator/x1_arch.cpp   | 12 ++++++++++++
 simulator/x1_arch.h     |  1 +
 4 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 8de742b..05bee90 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -535,7 +535,7 @@ bool Processor::call_opc(unsigned opc)
         for (unsigned i = 0; i < ndim; ++i) {
             int dimsize = x1_to_integer(load_word(addr + 2 + i));
             int idx     = idxs[i].is_int_value() ? x1_to_integer(idxs[i].get_int())
-                                                 : (int)roundl(x1_to_ieee(idxs[i].get_real()));
+                                                 : ieee_to_integer(x1_to_ieee(idxs[i].get_real()));
             if (i == 0)
                 idx0 = idx;
             elt_addr += idx * dimsize;
@@ -976,7 +976,7 @@ bool Processor::call_opc(unsigned opc)
                 stack.push_real_value(load_real(actual + i));
                 break;
             case 21: // real to integer
-                stack.push_int_value(integer_to_x1(roundl(x1_to_ieee(load_real(actual + 2 * i)))));
+                stack.push_int_value(integer_to_x1(ieee_to_integer(x1_to_ieee(load_real(actual + 2 * i)))));
                 break;
             case 12: // integer to real
                 stack.push_real_value(
diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index c730ea0..b32ea5e 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -536,7 +536,7 @@ void Processor::store_value(const Stack_Cell &dest, const Stack_Cell &src)
         if (src.is_int_value()) {
             result = src.get_int();
         } else if (src.is_real_value()) {
-            result = integer_to_x1((int)roundl(x1_to_ieee(src.get_real())));
+            result = integer_to_x1(ieee_to_integer(x1_to_ieee(src.get_real())));
         } else {
             throw std::runtime_error("Cannot store address");
         }
diff --git a/simulator/x1_arch.cpp b/simulator/x1_arch.cpp
index 30813c4..2f0ab90 100644
--- a/simulator/x1_arch.cpp
+++ b/simulator/x1_arch.cpp
@@ -129,6 +129,18 @@ Word integer_to_x1(int input)
     return result;
 }
 
+//
+// Round floating point value to the nearest integer.
+//
+int ieee_to_integer(long double input)
+{
+    input = roundl(input);
+    if (!(fabsl(input) <= BITS(26))) {
+        throw std::runtime_error("Overflow in integer arithmetic");
+    }
+    return (int)input;
+}
+
 int x1_to_integer(Word input)
 {
     if (input & ONEBIT(26)) {
diff --git a/simulator/x1_arch.h b/simulator/x1_arch.h
index f7e0b8a..509179b 100644
--- a/simulator/x1_arch.h
+++ b/simulator/x1_arch.h
@@ -56,6 +56,7 @@ long double x1_to_ieee(Real word);
 // Convert integer value between native and X1 formats.
 //
 Word integer_to_x1(int d);
+int ieee_to_integer(long double d);
 int x1_to_integer(Word word);
 
 //
-- 
2.43.0


From 6e18329fd042164480c8c86311f31a4d51ff032a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:00 +0000
Subject: [PATCH 12/31] fix: check range of integer before negating it

---
 simulator/x1_arch.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simulator/x1_arch.cpp b/simulator/x1_arch.cpp
index 2f0ab90..b42472e 100644
--- a/simulator/x1_arch.cpp
+++ b/simulator/x1_arch.cpp
@@ -113,15 +113,15 @@ long double x1_to_ieee(Real input)
 //
 Word integer_to_x1(int input)
 {
+    if (input < -(int)BITS(26) || input > (int)BITS(26)) {
+        throw std::runtime_error("Overflow in integer arithmetic");
+    }
+
     const bool negate_flag = input < 0;
     if (negate_flag) {
         input = -input;
     }
 
-    if (input > (int)BITS(26)) {
-        throw std::runtime_error("Overflow in integer arithmetic");
-    }
-
     Word result = input;
     if (negate_flag) {
         result ^= BITS(27);
-- 
2.43.0


From f1441edda97a404a7c04a580f5d10daddbe99ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:26 +0000
Subject: [PATCH 13/31] fix: FLOT must check the range of the printed exponent

---
 simulator/machine.cpp | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index 5290665..9dfb625 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -531,6 +531,20 @@ void Machine::print_floating_point(std::ostream &out, int n, int m, long double
     }
 
     int exponent = (x == 0) ? 0 : 1 + floor(log10l(x));
+
+    // Scale to range [0, 1).
+    if (exponent != 0) {
+        x /= powl(10.0, exponent);
+    }
+
+    // Round.
+    x += 0.5 / powl(10.0, n);
+    if (x >= 1) {
+        x /= 10;
+        exponent++;
+    }
+
+    // Check whether the exponent fits.
     switch (m) {
     case 1:
         if (exponent > 9 || exponent < -9) {
@@ -538,7 +552,7 @@ void Machine::print_floating_point(std::ostream &out, int n, int m, long double
         }
         break;
     case 2:
-        if (exponent > 9 || exponent < -99) {
+        if (exponent > 99 || exponent < -99) {
             goto again;
         }
         break;
@@ -547,18 +561,6 @@ void Machine::print_floating_point(std::ostream &out, int n, int m, long double
         break;
     }
 
-    // Scale to range [0, 1).
-    if (exponent != 0) {
-        x /= powl(10.0, exponent);
-    }
-
-    // Round.
-    x += 0.5 / powl(10.0, n);
-    if (x >= 1) {
-        x /= 10;
-        exponent++;
-    }
-
     // Print mantissa.
     out << sign_symbol << '.';
     for (int count = 0; count < n; count++) {
-- 
2.43.0


From 8607c08f5e75b5b7b4578d1aa6efc69dbfbe9b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:04 +0000
Subject: [PATCH 14/31] fix: report an object file without entry address

---
 simulator/machine.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/simulator/machine.h b/simulator/machine.h
index 82bedcf..83774e3 100644
--- a/simulator/machine.h
+++ b/simulator/machine.h
@@ -114,7 +114,13 @@ public:
     unsigned get_symbol(const std::string &name) { return symbol_table.at(name); }
 
     // Get entry address by index.
-    unsigned get_entry(unsigned index) { return entry_table[index]; }
+    unsigned get_entry(unsigned index)
+    {
+        if (index >= entry_table.size()) {
+            throw std::runtime_error("No entry address in object file");
+        }
+        return entry_table[index];
+    }
 
     // Get status of simulation: either EXIT_SUCCESS (0) or
     // EXIT_FAILURE in case of errors.
-- 
2.43.0


From c226ba57ad6a08f958f31941aafd689fb224d987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:03 +0000
Subject: [PATCH 15/31] fix: report arrays that are too large instead of
 wrapping around

---
 simulator/processor.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index b32ea5e..035540c 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -1,5 +1,6 @@
 #include <algorithm>
 #include <cmath>
+#include <cstdlib>
 #include <iostream>
 
 #include "machine.h"
@@ -899,12 +900,15 @@ void Processor::make_storage_function_frame(int elt_size)
         stack.push_real_addr(0);
     stack.push_null(); // future "0 element" address
     unsigned zero_base = stack.count() - 1;
-    int offset         = 0;
-    int stride         = elt_size;
+    int64_t offset     = 0;
+    int64_t stride     = elt_size;
     for (int i = 0; i < ndim; ++i) {
         stack.push_int_value(stride);
         offset += stride * dims[i].first;
         stride *= (dims[i].second - dims[i].first + 1);
+        if (std::abs(stride) > (int)BITS(26) || std::abs(offset) > (int)BITS(26)) {
+            throw std::runtime_error("Array is too large");
+        }
     }
     stack.set_int_value(zero_base, integer_to_x1(offset));
     stack.push_int_value(integer_to_x1(-stride));
-- 
2.43.0


From 5379e9e680913d5bfb723a5892d61cc082a30486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:05 +0000
Subject: [PATCH 16/31] fix: reject array bounds with a negative extent

---
 simulator/processor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index 035540c..fed5473 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -891,6 +891,9 @@ void Processor::make_storage_function_frame(int elt_size)
     for (int i = 0; i < ndim; ++i) {
         int right = stack.pop_integer();
         int left  = stack.pop_integer();
+        if (right < left - 1) {
+            throw std::runtime_error("Wrong array bounds");
+        }
         dims.push_back(std::make_pair(left, right));
     }
     std::reverse(dims.begin(), dims.end());
-- 
2.43.0


From 2bddd623df7a49a28ee221ee564859d0bc89276c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:36 +0000
Subject: [PATCH 17/31] fix: subscripts must not wrap around modulo 2^20

---
 simulator/opcodes.cpp   |  9 ++++-----
 simulator/processor.cpp | 13 +++++++++++++
 simulator/processor.h   |  1 +
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 05bee90..20f67c2 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -524,23 +524,22 @@ bool Processor::call_opc(unsigned opc)
         // 2+ndim: number of words in the array, negated
         unsigned addr = storage_fn.get_addr();
         int location  = x1_to_integer(load_word(addr));
-        int base      = load_word(addr + 1);
+        int base      = location - first_element_offset(location, load_word(addr + 1));
         int limit     = x1_to_integer(load_word(addr + 2 + ndim));
         // The limit must look like a negative number with a reasonable absolute value.
         if (limit >= 0 || -limit > 0xfffff) {
             throw std::runtime_error("A wrong number of indexes for an array");
         }
-        int elt_addr = base;
-        int idx0     = 0; // for the error message
+        int64_t elt_addr = base;
+        int idx0         = 0; // for the error message
         for (unsigned i = 0; i < ndim; ++i) {
             int dimsize = x1_to_integer(load_word(addr + 2 + i));
             int idx     = idxs[i].is_int_value() ? x1_to_integer(idxs[i].get_int())
                                                  : ieee_to_integer(x1_to_ieee(idxs[i].get_real()));
             if (i == 0)
                 idx0 = idx;
-            elt_addr += idx * dimsize;
+            elt_addr += (int64_t)idx * dimsize;
         }
-        elt_addr &= BITS(20); // 16 rather than 15 is to catch "negative" addresses
         if (elt_addr < location || elt_addr + limit >= location) {
             std::ostringstream ostr;
             int elsize = x1_to_integer(load_word(addr + 2));
diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index fed5473..bd413e2 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -932,6 +932,19 @@ Word Processor::load_word(unsigned addr)
         return stack.get(addr - STACK_BASE).get_int();
 }
 
+//
+// Distance from the "zero element" of an array to the first element.
+// The address of the zero element is kept modulo 2^26 for a static array,
+// and modulo 2^27 for an array in stack.
+//
+int Processor::first_element_offset(int location, int base)
+{
+    const int modulo = location < (int)STACK_BASE ? ONEBIT(26) : ONEBIT(27);
+    const int offset = (location - base) & (modulo - 1);
+
+    return offset < modulo / 2 ? offset : offset - modulo;
+}
+
 void Processor::make_value_array_function_frame(int elt_size)
 {
     take_formal(core.S, Formal_Op::PUSH_ADDRESS);
diff --git a/simulator/processor.h b/simulator/processor.h
index 4bbba6f..5c30b2b 100644
--- a/simulator/processor.h
+++ b/simulator/processor.h
@@ -194,6 +194,7 @@ private:
     void make_storage_function_frame(int elt_size);
     void make_value_array_function_frame(int elt_size);
     Word load_word(unsigned addr);
+    static int first_element_offset(int location, int base);
 
     // Apply given operation to the retrieved address of formal parameter.
     void apply_operation(Formal_Op post_op, unsigned addr, Cell_Type type);
-- 
2.43.0


From 0f26e56de6ca247e0cb49f331a82eef3c3d67ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:13 +0000
Subject: [PATCH 18/31] fix: keep the lower bound of an array passed by value

---
 simulator/opcodes.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 20f67c2..c9ec582 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -926,8 +926,7 @@ bool Processor::call_opc(unsigned opc)
         // value array positioning
         unsigned storage_fn = address_in_stack(core.S);
         unsigned actual     = stack.get(storage_fn).get_addr();
-        unsigned zero_base =
-            stack.get(storage_fn + 1).get_addr() & 0xFFFF; // remove stray high bits
+        unsigned zero_base = stack.get(storage_fn + 1).get_addr();
         unsigned elt_size = stack.get(storage_fn + 2).get_int();
         Cell_Type ct = elt_size % 2 == 1 ? Cell_Type::INTEGER_ADDRESS : Cell_Type::REAL_ADDRESS;
         // Element size correctors for type conversion.
@@ -963,7 +962,7 @@ bool Processor::call_opc(unsigned opc)
         }
         unsigned words = -x1_to_integer(stack.get(storage_fn + pos).get_int());
         stack.set(storage_fn, Stack_Cell{ ct, stack_base + STACK_BASE });
-        int offset = actual - zero_base;
+        int offset = first_element_offset(actual, zero_base);
         offset     = offset * mul / div;
         stack.set(storage_fn + 1, Stack_Cell{ ct, stack_base - offset + STACK_BASE });
         for (unsigned i = 0; i < words; ++i) {
-- 
2.43.0


From e2933b4d75873648ecb9b440ccce9e20640709c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:40 +0000
Subject: [PATCH 19/31] fix: future list must not overwrite the constant list

---
 compiler/x1algc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 6696895..dbb42d1 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -1297,7 +1297,7 @@ Local Void fill_future_list(int place, int value)
     /*FU*/
     int i, FORLIM;
 
-    if (place >= klib) {
+    while (place >= klib) {
         if (nlib + nlsc + 16 >= plib)
             stop(6, "fill_future_list: Store capacity too small");
         FORLIM = klib;
-- 
2.43.0


From 21688c5b32426fbbb1d92ae4f00133b026151b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:42 +0000
Subject: [PATCH 20/31] fix: translation list must not overwrite the library
 procedures

---
 compiler/x1algc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index dbb42d1..355c677 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -674,6 +674,8 @@ _L5:;
 
 Static Void fill_t_list(int n)
 {
+    if (tlsc >= mcpb)
+        stop(24, "Too deep nesting");
     store[tlsc] = n;
     tlsc++;
 } /*fill_t_list*/
-- 
2.43.0


From b9c8a3267747a1dd8cf76d04fa41c027e25c8661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:05 +0000
Subject: [PATCH 21/31] fix: limit local variables to the range of dynamic
 addresses

---
 compiler/x1algc.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 355c677..1bec863 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -1467,6 +1467,14 @@ Local Void new_block_by_declaration()
     new_block_by_declaration1();
 } /*new_block_by_declaration*/
 
+Local Void advance_pnlv(int n)
+{
+    /*dynamic addresses must fit into 15 bits*/
+    pnlv += n;
+    if (pnlv >= d15 + d5)
+        stop(17, "Too many local variables");
+} /*advance_pnlv*/
+
 Local Void fill_name_list()
 {
     /*HN*/
@@ -1545,7 +1553,7 @@ Local Void reservation_of_arrays()
                 fill_result_list(93, 0);
             /*IVA*/
             store[rlab - 1] = id / d15 * d15 - d16 + pnlv;
-            pnlv += 256; /*at most 5 indices*/
+            advance_pnlv(256); /*at most 5 indices*/
         }
         if ((store[rlab - 2] & (d3 - 1)) == 0)
             rlab -= 2;
@@ -2397,7 +2405,7 @@ _L101: /*]*/
                 arra -= 2;
             else
                 arra -= 3;
-            pnlv += (ic + 3) * d5;
+            advance_pnlv((ic + 3) * d5);
             aic--;
         } while (aic != 0);
         read_until_next_delimiter();
@@ -2551,10 +2559,10 @@ _L1083: /*dynamic addressing*/
     id = pnlv + d15;
     if (ibd == 1) {
         id += d19;
-        pnlv += 32;
+        advance_pnlv(32);
         lvc++;
     } else {
-        pnlv += 64;
+        advance_pnlv(64);
         lvc += 2;
     }
     fill_name_list();
@@ -2700,7 +2708,7 @@ _L112: /*procedure*/
         read_until_next_delimiter();
         id = pnlv + d15 + d16;
         fill_name_list();
-        pnlv += d5 * 2; /*reservation PARD*/
+        advance_pnlv(d5 * 2); /*reservation PARD*/
     } while (dl == 87);
     read_until_next_delimiter(); /*for ; after )*/
 _L1121:
-- 
2.43.0


From 3792ed0bdc51c91141ec7ea197b8e49c1499879f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:07 +0000
Subject: [PATCH 22/31] fix: static variables must not overlap the program

---
 compiler/x1algc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 1bec863..df0d727 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -2660,6 +2660,8 @@ _L1102: /*static bounds, constants only:*/
                 tlsc++;
             } while (store[tlsc - 1] > 0);
             gvc -= store[tlsc - 1];
+            if (gvc > klie)
+                stop(19, "Static arrays too large");
             tlsc = arrb;
             if ((store[nlib + arrd - 2] & (d3 - 1)) == 0)
                 arrd -= 2;
@@ -3404,6 +3406,8 @@ Static Void program_loader()
         }
         fclose(lib_tape);
     }
+    if (gvc > mcpe)
+        stop(99, "Store too small for static variables");
     /*program loading completed:*/
     typ_address(mcpe);
 } /*program_loader*/
-- 
2.43.0


From a96164f96c17ec15ba3e33e8fd89e4eab4eae795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:39 +0000
Subject: [PATCH 23/31] fix: a real constant below the range is zero

---
 compiler/x1algc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index df0d727..7642107 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -665,6 +665,12 @@ _L3: /*float*/
     }
     if (bexp > 4095)
         stop(4, "Real too large");
+    if (bexp < 0) { /*underflow*/
+        inw   = 0;
+        fnw   = 0;
+        dflag = 0;
+        goto _L4;
+    }
     inw   = inw / 4096 * 4096 + bexp;
     dflag = 1;
 _L4:
-- 
2.43.0


From 5d2d9be03c6ff7619ba8c6da25895125be93bf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:41 +0000
Subject: [PATCH 24/31] fix: reject unknown operations on the library tape

---
 compiler/x1algc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 7642107..88f14db 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -3134,6 +3134,8 @@ Local int read_binary_word(struct LOC_program_loader *LINK)
         else {
             w -= 366;
             /*011xxxxxxx*/
+            if (w > 112)
+                stop(108, "Bad operation on library tape");
         }
         return (opc_table[w]);
     } /*0*/
-- 
2.43.0


From 7e598912c82667560603ad002534d8b47625c5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:43 +0000
Subject: [PATCH 25/31] fix: do not use a closed library tape

---
 compiler/x1algc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 88f14db..65e723c 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -3413,6 +3413,7 @@ Static Void program_loader()
             V.ll = read_bit_string(13, &V);
         }
         fclose(lib_tape);
+        lib_tape = NULL;
     }
     if (gvc > mcpe)
         stop(99, "Store too small for static variables");
-- 
2.43.0


From 71031383cd6d61689b9c0cd83291fe2893af6a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:59 +0000
Subject: [PATCH 26/31] fix: report failure to write the object program

---
 compiler/x1algc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 65e723c..d4b9cf9 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -3904,6 +3904,10 @@ int main(int argc, char *argv[])
     for (ii = mcpe; ii < FORLIM; ii++)
         printf("%5d%10d\n", ii, store[ii]);
     free(input_line);
+    if (fflush(stdout) != 0 || ferror(stdout)) {
+        perror("output");
+        exit(EXIT_FAILURE);
+    }
     exit(EXIT_SUCCESS);
 }
 
-- 
2.43.0


From ea5a1883ccd99232f7398f4419f6eb182a991c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:00 +0000
Subject: [PATCH 27/31] fix: a line end in the source is one newline symbol,
 not two

getline keeps the line terminator, so the end of a line was delivered once as
a character and once more when the next line was read: a string spanning two
lines was printed with an empty line in between.
---
 compiler/x1algc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index d4b9cf9..4d9a6e5 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -203,8 +203,9 @@ _L1:
             input_eof_seen = true;
             return 123; /*space*/
         }
-        if (getline(&input_line, &input_line_len, source_tape))
-            ;
+        if (getline(&input_line, &input_line_len, source_tape) < 0)
+            input_line[0] = '\0';
+        input_line[strcspn(input_line, "\n")] = '\0'; /*the line end is reported below*/
         input_pos = 0;
         /*writeln('---');*/
         /*for debug*/
-- 
2.43.0


From e7a24efe6d20dcd31db21fc79d48f212de5a955a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:30 +0000
Subject: [PATCH 28/31] fix: codes beyond the operation table of the loader are
 bad operations

The table has 106 entries; the codes 472 to 478 were loaded as the word 0
instead of being reported.
---
 compiler/x1algc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 4d9a6e5..804acd6 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -3135,7 +3135,7 @@ Local int read_binary_word(struct LOC_program_loader *LINK)
         else {
             w -= 366;
             /*011xxxxxxx*/
-            if (w > 112)
+            if (w > 105) /*beyond the table*/
                 stop(108, "Bad operation on library tape");
         }
         return (opc_table[w]);
-- 
2.43.0


From c8d908a9b3495d2cecff22521204d4ce6f565b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:58 +0000
Subject: [PATCH 29/31] fix: the letter Z may occur beyond the ninth character
 of an identifier

The skipping of insignificant characters stopped at Z, which was then taken
for a delimiter: integer abcdefghiZ was rejected.
---
 compiler/x1algc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 804acd6..6224810 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -545,7 +545,7 @@ Static Void read_until_next_delimiter()
                 marker = (fnw & (d6 - 1)) * d21;
                 fnw    = fnw / d6 + d21 * 63;
             }
-            while (dl < 62)
+            while (dl < 63)
                 read_next_symbol();
         }
         goto _L4;
-- 
2.43.0


From 4e41a20951f6b4e89568ecbfec2c7b76484f663a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:52 +0000
Subject: [PATCH 30/31] fix: the carry was lost when a decimal exponent is
 worked into a constant

Multiplying the two-word mantissa by 5/8 can carry out of the tail; the carry
was dropped by the final rounding, so that 10000000000000000000 was compiled
with a relative error of 2e-9.
---
 compiler/x1algc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 6224810..5b52b53 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -629,7 +629,8 @@ _L3: /*float*/
         do {
             fnw *= 5;
             inw = (fnw & 7) * d23 + inw * 5 / 8;
-            fnw /= 8;
+            fnw = fnw / 8 + inw / d26; /*with the carry*/
+            inw &= d26 - 1;
             if (fnw < d25) {
                 inw *= 2;
                 fnw = fnw * 2 + inw / d26;
-- 
2.43.0


From c1dbd6a2bf5eb2bf4583b078282e10790b4ab477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:08 +0000
Subject: [PATCH 31/31] fix: a constant actual parameter after an operation
 procedure is not a procedure

---
 compiler/x1algc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 5b52b53..7571dc5 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -2157,7 +2157,7 @@ _L8702:
         if (aflag == 0) {
             if (store[tlsc - 2] == rlsc && (fflag == 0 || pass_formals) &&
                 jflag == 0 && nflag == 1) {
-                if (nid > nlscop) {
+                if (kflag != 0 || nid > nlscop) {
                     if (pflag == 1 && fflag == 0) /*non-formal procedure:*/
                         test_first_occurrence();
                     /*PORD construction:*/
-- 
2.43.0


From e873ea55b91919ccc867ee14c794ed6d12ef051b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:54 +0000
Subject: [PATCH 01/20] fix: compare only the used bits of equal-sized
 dynamic_bitsets

flip(), set() and operator~ leave values in the unused bits of a partial last
block; operator== compared these bits and reported equal bit sequences as
different.
---
 src/DRAMPower/DRAMPower/util/dynamic_bitset.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/dynamic_bitset.h b/src/DRAMPower/DRAMPower/util/dynamic_bitset.h
index cc0eb2b..b6b4d8b 100644
--- a/src/DRAMPower/DRAMPower/util/dynamic_bitset.h
+++ b/src/DRAMPower/DRAMPower/util/dynamic_bitset.h
@@ -124,7 +124,12 @@ public: // comparison operations
         }
     
         for (std::size_t i = 0; i < this->buffer.size(); ++i) {
-            if (buffer.at(i) != rhs.buffer.at(i)) {
+            auto difference = buffer.at(i) ^ rhs.buffer.at(i);
+            if (i == num_bits / blocksize) {
+                // The unused bits of a partial last block carry no value
+                difference &= lastelementmask;
+            }
+            if (difference.any()) {
                 return false;
             }
         }
-- 
2.43.0


From b08152409246f00a168162280145cb41942a861e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:53 +0000
Subject: [PATCH 02/20] fix: SubChunkView::last is true on the final subchunk
 of a chunk

last() was true on the first subchunk. With more than one subchunk per
chunk (LPDDR6) the DBI decision was taken before the rest of the chunk had
been counted, and that rest was added to the following chunk.
---
 src/DRAMPower/DRAMPower/util/dbihelpers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/dbihelpers.h b/src/DRAMPower/DRAMPower/util/dbihelpers.h
index 404ecb4..5f2b255 100644
--- a/src/DRAMPower/DRAMPower/util/dbihelpers.h
+++ b/src/DRAMPower/DRAMPower/util/dbihelpers.h
@@ -119,7 +119,7 @@ public:
     }
 
     inline bool last() const {
-        return 0 == (m_current_data_idx % COUNT_DATA);
+        return 0 == ((m_current_data_idx + 1) % COUNT_DATA);
     }
 
     inline static constexpr std::size_t getDataTotal() {
-- 
2.43.0


From ef89045da80775f7a6f39a697e8be881afb4042c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:19 +0000
Subject: [PATCH 03/20] fix: generate LPDDR6 CA parity on the registered parity
 pin

All registered patterns carry the parity bit on CA3 of the first edge, the
encoder only looked for it on CA2: with parity checking enabled no parity was
ever generated. ACT consists of two commands with one parity bit each.
---
 .../DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp    | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp
index b7a9320..41d73e9 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp
@@ -154,11 +154,20 @@ uint64_t LPDDR6Encoder::encode(const LPDDR6TargetCoordinate& targetCoordinate, c
         }
 
         // Parity
-        if (extraData.parity_check_mode && PAR == pattern[2]) {
+        if (extraData.parity_check_mode) {
             // When CA Parity is enabled, the Host 
             // generates an even bit parity based on the 1st and 2nd rising and falling edges of CA[3:0] 
             // signals, excluding the CA Parity bit
-            bitset[pattern.size() - 3] = (1 == bitset.count() % 2);
+            // The CA Parity bit is CA3 on the 1st rising edge of each command (ACT consists of two commands)
+            constexpr std::size_t commandSize = 16;
+            for (std::size_t par = 3; par < pattern.size(); par += commandSize) {
+                if (PAR != pattern[par]) continue;
+                bool parity = false;
+                for (std::size_t i = par - 3; i < pattern.size() && i < par - 3 + commandSize; ++i) {
+                    parity ^= bitset[pattern.size() - 1 - i]; // CA Parity bit itself is not set yet
+                }
+                bitset[pattern.size() - 1 - par] = parity;
+            }
         }
 
         return bitset.to_ullong();
-- 
2.43.0


From 8ca6f116905e7b5f9065c3db342c8ce2a04bf0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:16 +0000
Subject: [PATCH 04/20] fix: grow the DBI inversion state by its size, not its
 capacity

A burst with more chunks than the previous one wrote behind the end of the
inversion state as long as the capacity sufficed.
---
 src/DRAMPower/DRAMPower/util/dbi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/dbi.h b/src/DRAMPower/DRAMPower/util/dbi.h
index 0f0a24f..9f2bae1 100644
--- a/src/DRAMPower/DRAMPower/util/dbi.h
+++ b/src/DRAMPower/DRAMPower/util/dbi.h
@@ -270,7 +270,7 @@ public:
         std::size_t n_chunks = n_bits / ChunkSize;
         
         // Resize lastInvert vector if needed
-        if (lastInvert.capacity() < n_chunks) {
+        if (lastInvert.size() < n_chunks) {
             lastInvert.resize(n_chunks, false);
         }
         
-- 
2.43.0


From ece3afa4a4a012d2ddb5f9cd017310dc6993e7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 05/20] fix: leaving active power-down resumes exactly the
 banks that are active

---
 src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp     | 2 +-
 src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp | 2 +-
 src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp | 2 +-
 src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
index 2d27b3f..fe70f9e 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
@@ -257,7 +257,7 @@ void DDR5Core::handlePowerDownActExit(std::size_t rank_idx, timestamp_t timestam
         bool rank_active = false;
 
         for (auto & bank : rank.banks) {
-            if (bank.counter.act != 0 && bank.cycles.act.get_end() == rank.cycles.powerDownAct.get_start()) {
+            if (bank.bankState == Bank::BankState::BANK_ACTIVE) {
                 rank_active = true;
                 bank.cycles.act.start_interval(exitTime);
             }
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
index f55157b..9acf224 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
@@ -193,7 +193,7 @@ void LPDDR4Core::handlePowerDownActExit(std::size_t rank_idx, timestamp_t timest
         bool rank_active = false;
 
         for (auto & bank : rank.banks) {
-            if (bank.counter.act != 0 && bank.cycles.act.get_end() == rank.cycles.powerDownAct.get_start()) {
+            if (bank.bankState == Bank::BankState::BANK_ACTIVE) {
                 rank_active = true;
                 bank.cycles.act.start_interval(exitTime);
             }
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
index ba15dc9..263740b 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
@@ -254,7 +254,7 @@ void LPDDR5Core::handlePowerDownActExit(std::size_t rank_idx, timestamp_t timest
         bool rank_active = false;
 
         for (auto & bank : rank.banks) {
-            if (bank.counter.act != 0 && bank.cycles.act.get_end() == rank.cycles.powerDownAct.get_start()) {
+            if (bank.bankState == Bank::BankState::BANK_ACTIVE) {
                 rank_active = true;
                 bank.cycles.act.start_interval(exitTime);
             }
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
index 4b67fd8..e0aabda 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
@@ -248,7 +248,7 @@ void LPDDR6Core::handlePowerDownActExit(std::size_t rank_idx, timestamp_t timest
         rank.cycles.powerDownAct.close_interval(exitTime);
         rank.cycles.act.start_interval(exitTime);
         for (auto & bank : rank.banks) {
-            if (bank.counter.act != 0 && bank.cycles.act.get_end() == rank.cycles.powerDownAct.get_start()) {
+            if (bank.bankState == Bank::BankState::BANK_ACTIVE) {
                 bank.cycles.act.start_interval(exitTime);
             }
         }
-- 
2.43.0


From b27a3594b042473202b62227142bfb16dd689c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 06/20] fix: DDR4 active power-down may be left while its entry
 is still deferred

---
 src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
index 9a45d31..bf43a9e 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
@@ -209,7 +209,6 @@ void DDR4Core::handlePowerDownActEntry(std::size_t rank_idx, timestamp_t timesta
 
 void DDR4Core::handlePowerDownActExit(std::size_t rank_idx, timestamp_t timestamp) {
     auto& rank = m_ranks[rank_idx];
-    assert(rank.memState == MemState::PDN_ACT);
     auto earliestPossibleExit = this->earliestPossiblePowerDownEntryTime(rank);
     auto exitTime = std::max(timestamp, earliestPossibleExit);
 
-- 
2.43.0


From 6ef4c68fdd8fd5c6b28f9cf5a5814a9ac28cb514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:17 +0000
Subject: [PATCH 07/20] fix: Bus statistics after the bus was switched off and
 on again

While off, the end of the stored burst was taken as time 0, so everything before
the switch-on was counted as idle again; the cycle of a load at the switch-off
stayed pending, and a load at the switch-on or switch-off time read the wires
before the last load (assertion).
---
 src/DRAMPower/DRAMPower/util/bus.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/util/bus.h b/src/DRAMPower/DRAMPower/util/bus.h
index 14e1ec3..a9be36e 100644
--- a/src/DRAMPower/DRAMPower/util/bus.h
+++ b/src/DRAMPower/DRAMPower/util/bus.h
@@ -91,14 +91,14 @@ private:
 
 	void advance_stats(timestamp_t virtual_timestamp, stats_t& stats) const {
 		// Advance counters to new timestamp
-		timestamp_t burstStorageEndTime = this->burst_storage.endTime();
+		timestamp_t burstStorageEndTime = this->last_load + this->burst_storage.size();
 		// Burst storage
 		timestamp_t lastburstEnd = std::min(burstStorageEndTime, virtual_timestamp);
 		for (timestamp_t t = this->last_load; 0 != lastburstEnd && t < lastburstEnd - 1; ++t) {
 			stats += diff(this->at(t), this->at(t + 1)); // Last: (virtual_timestamp - 2, virtual_timestamp - 1)
 		}
 		// Burst to idle
-		if (virtual_timestamp > burstStorageEndTime && burstStorageEndTime > 0) {
+		if (virtual_timestamp > burstStorageEndTime && this->burst_storage.size() > 0) {
 			// Burst to idle
 			stats += diff(this->at(burstStorageEndTime - 1), this->at(burstStorageEndTime));
 		}
@@ -119,7 +119,7 @@ private:
 		}
 		advance_stats(virtual_timestamp, stats);
 		// Pattern for pending stats (virtual_timestamp - 1, virtual_timestamp)
-		if(virtual_timestamp > 0)
+		if(virtual_timestamp > this->last_load)
 		{
 			this->last_pattern = this->at(virtual_timestamp - 1);
 		}
@@ -201,6 +201,7 @@ public:
 
 		add_previous_stats(this->virtual_disable_timestamp);
 		// Clear pending stats
+		this->pending_stats.clear();
 		this->burst_storage.clear();
 
 		this->last_load = this->virtual_disable_timestamp;
@@ -217,6 +218,7 @@ public:
 		this->last_load = timestamp * this->datarate;
 		// Add pending stats at enable timestamp
 		this->pending_stats.setPendingStats(this->last_load, idle_stats);
+		this->last_pattern = this->idle_pattern_burst;
 		this->enableflag = true;
 	}
 
-- 
2.43.0


From 3bc9ad213c1951a124399cf855467340746441d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:17 +0000
Subject: [PATCH 08/20] fix: Pin::set scaled the load time by the data rate
 twice

---
 src/DRAMPower/DRAMPower/util/pin.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/pin.h b/src/DRAMPower/DRAMPower/util/pin.h
index 1a94e23..35c417e 100644
--- a/src/DRAMPower/DRAMPower/util/pin.h
+++ b/src/DRAMPower/DRAMPower/util/pin.h
@@ -143,7 +143,7 @@ public:
         timestamp_t virtual_load_time  = load_time * dataRate;
 
         // Count stats to virtual_load_time
-        set_internal(virtual_load_time, dataRate, m_pending_stats, m_stats);
+        set_internal(load_time, dataRate, m_pending_stats, m_stats);
         if (m_pending_stats.isPending() && m_pending_stats.getTimestamp() < virtual_load_time) {
             m_pending_stats.clear();
         }
-- 
2.43.0


From 87a82d1ba22abc02216d2674ec0f9ef87b28fd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:09 +0000
Subject: [PATCH 09/20] fix: burst energy must not truncate the burst duration
 to whole clock cycles

burstLength / dataRate was an integer division in E_WR (and in E_RD of the LPDDR
standards), so a burst that lasts a fractional number of clock cycles lost part of
its energy; DDR4 and DDR5 reads already used the exact quotient.
---
 .../DRAMPower/standards/ddr4/core_calculation_DDR4.cpp        | 2 +-
 .../DRAMPower/standards/ddr5/core_calculation_DDR5.cpp        | 2 +-
 .../DRAMPower/standards/lpddr4/core_calculation_LPDDR4.cpp    | 4 ++--
 .../DRAMPower/standards/lpddr5/core_calculation_LPDDR5.cpp    | 4 ++--
 .../DRAMPower/standards/lpddr6/core_calculation_LPDDR6.cpp    | 4 ++--
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/core_calculation_DDR4.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/core_calculation_DDR4.cpp
index b35c3bd..01836f4 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/core_calculation_DDR4.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/core_calculation_DDR4.cpp
@@ -31,7 +31,7 @@ namespace DRAMPower {
 	}
 
 	inline double Calculation_DDR4::E_WR(double VDD, double IDD4_W, double I_B, double t_CK, std::size_t BL, std::size_t DR, uint64_t N_WR) const {
-		return VDD * (IDD4_W - I_B) * (BL / DR) * t_CK * N_WR;
+		return VDD * (IDD4_W - I_B) * (double(BL) / DR) * t_CK * N_WR;
 	}
 
 	inline double Calculation_DDR4::E_ref_ab(std::size_t B, double VDD, double IDD5B, double I_B, double tRFC, uint64_t N_REF) const {
diff --git a/src/DRAMPower/DRAMPower/standards/ddr5/core_calculation_DDR5.cpp b/src/DRAMPower/DRAMPower/standards/ddr5/core_calculation_DDR5.cpp
index 08791ec..335086c 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr5/core_calculation_DDR5.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr5/core_calculation_DDR5.cpp
@@ -36,7 +36,7 @@ namespace DRAMPower {
 
     double Calculation_DDR5::E_WR(double VDD, double IDD4_W, double I_B, double t_CK, std::size_t BL, std::size_t DR,
                                   uint64_t N_WR) const {
-        return VDD * (IDD4_W - I_B) * (BL / DR) * t_CK * N_WR;
+        return VDD * (IDD4_W - I_B) * (double(BL) / DR) * t_CK * N_WR;
     }
 
     double
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/core_calculation_LPDDR4.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/core_calculation_LPDDR4.cpp
index 20e2d24..d1d7eba 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/core_calculation_LPDDR4.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/core_calculation_LPDDR4.cpp
@@ -29,11 +29,11 @@ namespace DRAMPower {
     }
 
     double Calculation_LPDDR4::E_RD(double VDD, double IDD4_R, double I_1, std::size_t BL, std::size_t DR, double t_CK, uint64_t N_RD) const {
-        return VDD * (IDD4_R - I_1) * (BL / DR) * t_CK * N_RD;
+        return VDD * (IDD4_R - I_1) * (double(BL) / DR) * t_CK * N_RD;
     }
 
     double Calculation_LPDDR4::E_WR(double VDD, double IDD4_W, double I_1, std::size_t BL, std::size_t DR, double t_CK, uint64_t N_WR) const {
-        return VDD * (IDD4_W - I_1) * (BL / DR) * t_CK * N_WR;
+        return VDD * (IDD4_W - I_1) * (double(BL) / DR) * t_CK * N_WR;
     }
 
     double Calculation_LPDDR4::E_ref_ab(std::size_t B, double VDD, double IDD5, double I_B, double tRFC, uint64_t N_REF) const {
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/core_calculation_LPDDR5.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/core_calculation_LPDDR5.cpp
index ac007d1..6ec0f6e 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/core_calculation_LPDDR5.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/core_calculation_LPDDR5.cpp
@@ -30,11 +30,11 @@ namespace DRAMPower {
     }
 
     double Calculation_LPDDR5::E_RD(double VDD, double IDD4_R, double I_i, std::size_t BL, std::size_t DR, double t_WCK, uint64_t N_RD) const {
-        return VDD * (IDD4_R - I_i) * (BL / DR) * t_WCK * N_RD;
+        return VDD * (IDD4_R - I_i) * (double(BL) / DR) * t_WCK * N_RD;
     }
 
     double Calculation_LPDDR5::E_WR(double VDD, double IDD4_R, double I_i, std::size_t BL, std::size_t DR, double t_WCK, uint64_t N_WR) const {
-        return VDD * (IDD4_R - I_i) * (BL / DR) * t_WCK * N_WR;
+        return VDD * (IDD4_R - I_i) * (double(BL) / DR) * t_WCK * N_WR;
     }
 
     double Calculation_LPDDR5::E_ref_ab(std::size_t B, double VDD, double IDD5B, double IDD3_N, double tRFC, uint64_t N_REF) const {
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/core_calculation_LPDDR6.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/core_calculation_LPDDR6.cpp
index 3149a49..c7d2ed9 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/core_calculation_LPDDR6.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/core_calculation_LPDDR6.cpp
@@ -29,11 +29,11 @@ namespace DRAMPower {
     }
 
     double Calculation_LPDDR6::E_RD(double VDD, double IDD4_R, double I_2, std::size_t BL, std::size_t DR, double t_WCK, uint64_t N_RD) const {
-        return VDD * (IDD4_R - I_2) * (BL / DR) * t_WCK * N_RD;
+        return VDD * (IDD4_R - I_2) * (double(BL) / DR) * t_WCK * N_RD;
     }
 
     double Calculation_LPDDR6::E_WR(double VDD, double IDD4_W, double I_2, std::size_t BL, std::size_t DR, double t_WCK, uint64_t N_WR) const {
-        return VDD * (IDD4_W - I_2) * (BL / DR) * t_WCK * N_WR;
+        return VDD * (IDD4_W - I_2) * (double(BL) / DR) * t_WCK * N_WR;
     }
 
     double Calculation_LPDDR6::E_ref_ab(std::size_t B, double VDD, double IDD5B, double I_B, double tRFC, uint64_t N_REF) const {
-- 
2.43.0


From 75a1e03a9fff0643ebfa509643dc018d166664b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:18 +0000
Subject: [PATCH 10/20] fix: LPDDR5 description without bank groups divided by
 zero

A description with zero bank groups is accepted for the 16B and 8B architectures, but
banksPerGroup was computed before that, by dividing by the number of groups; after the
fallback to 16B it also kept the value of the rejected description.
---
 src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp b/src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp
index 5eb179a..0820545 100644
--- a/src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp
+++ b/src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp
@@ -8,7 +8,6 @@ MemSpecLPDDR5::MemSpecLPDDR5(const DRAMUtils::MemSpec::MemSpecLPDDR5 &memspec)
 {
     numberOfBankGroups      = memspec.memarchitecturespec.nbrOfBankGroups;
     numberOfRanks           = memspec.memarchitecturespec.nbrOfRanks;
-    banksPerGroup           = numberOfBanks / numberOfBankGroups;
 
     memTimingSpec.tCK       = memspec.memtimingspec.tCK;
     memTimingSpec.WCKtoCK   = memspec.memtimingspec.WCK2CK;
@@ -113,6 +112,8 @@ MemSpecLPDDR5::MemSpecLPDDR5(const DRAMUtils::MemSpec::MemSpecLPDDR5 &memspec)
     } else {
         BankArchError();
     }
+    // No bank groups is a valid description of the 16B and 8B architectures
+    banksPerGroup = (0 == numberOfBankGroups) ? numberOfBanks : numberOfBanks / numberOfBankGroups;
 
     // Source: LPDDR5 standard; table 312
     memTimingSpec.tBurst = burstLength/(dataRate * memTimingSpec.WCKtoCK);
-- 
2.43.0


From c228e4bf72e4467f62ab420211b4762dbd2f1940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:18 +0000
Subject: [PATCH 11/20] fix: DDR5 toggling-rate DQ energy used the resistance
 as the termination flag

calcDQEnergyTogglingRate passed rdq_R_eq/wdq_R_eq where the termination flag belongs, so
an unterminated data bus was charged termination energy in toggling mode (the data-bus
mode and all other standards use the flag).
---
 .../DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp b/src/DRAMPower/DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp
index c6cd8d4..c231ed8 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp
@@ -73,13 +73,13 @@ interface_energy_info_t InterfaceCalculation_DDR5::calcDQEnergyTogglingRate(cons
 
     // Read
     result.dram.staticEnergy +=
-        calcStaticTermination(impedances_.rdq_R_eq, stats.read, impedances_.rdq_R_eq, t_CK_, memspec_.dataRate, VDDQ_);
+        calcStaticTermination(impedances_.rdq_termination, stats.read, impedances_.rdq_R_eq, t_CK_, memspec_.dataRate, VDDQ_);
     result.dram.dynamicEnergy +=
         calc_dynamic_energy(stats.read.zeroes_to_ones, impedances_.rdq_dyn_E);
 
     // Write
     result.controller.staticEnergy +=
-        calcStaticTermination(impedances_.wdq_R_eq, stats.write, impedances_.wdq_R_eq, t_CK_, memspec_.dataRate, VDDQ_);
+        calcStaticTermination(impedances_.wdq_termination, stats.write, impedances_.wdq_R_eq, t_CK_, memspec_.dataRate, VDDQ_);
     result.controller.dynamicEnergy +=
         calc_dynamic_energy(stats.write.zeroes_to_ones, impedances_.wdq_dyn_E);
 
-- 
2.43.0


From 22c6c74732bc71953daf1019664ff7517e2b8011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:25 +0000
Subject: [PATCH 12/20] fix: DDR4 window statistics left the rank's command
 counters empty

The DQS energy takes the number of bursts from rank_total[i].counter and subtracts the
seamless ones, but getWindowStats never filled that counter: pre- and postambles were
never charged, and with a seamless burst the difference wrapped around to about 2^64.
---
 src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
index bf43a9e..4d0ee19 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
@@ -300,8 +300,10 @@ void DDR4Core::getWindowStats(timestamp_t timestamp, SimulationStats &stats) {
     for (size_t i = 0; i < m_memSpec.numberOfRanks; ++i) {
         const Rank &rank = m_ranks[i];
         size_t bank_offset = i * m_memSpec.numberOfBanks;
+        stats.rank_total[i].counter = {};
         for (size_t j = 0; j < m_memSpec.numberOfBanks; ++j) {
             stats.bank[bank_offset + j].counter = rank.banks[j].counter;
+            stats.rank_total[i].counter += rank.banks[j].counter;
             stats.bank[bank_offset + j].cycles.act =
                 rank.banks[j].cycles.act.get_count_at(timestamp);
             stats.bank[bank_offset + j].cycles.selfRefresh =
-- 
2.43.0


From 78983f143073443324367b4b0e3a808856562363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:52 +0000
Subject: [PATCH 13/20] fix: saved command encoder keeps the last pattern

---
 src/DRAMPower/DRAMPower/util/PatternHandler.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/util/PatternHandler.h b/src/DRAMPower/DRAMPower/util/PatternHandler.h
index a08cea0..cf6e48c 100644
--- a/src/DRAMPower/DRAMPower/util/PatternHandler.h
+++ b/src/DRAMPower/DRAMPower/util/PatternHandler.h
@@ -102,9 +102,11 @@ public:
 public:
     void serialize(std::ostream& stream) const override {
         m_encoder.serialize(stream);
+        stream.write(reinterpret_cast<const char*>(&m_lastPattern), sizeof(m_lastPattern));
     }
     void deserialize(std::istream& stream) override {
         m_encoder.deserialize(stream);
+        stream.read(reinterpret_cast<char*>(&m_lastPattern), sizeof(m_lastPattern));
     }
 
 // Private member variables
-- 
2.43.0


From 38f7bb610f90314052727e7ccea255a2fb017e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:41 +0000
Subject: [PATCH 14/20] fix: saved DBI state is read back with the type it was
 written with

---
 src/DRAMPower/DRAMPower/util/dbi.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/util/dbi.h b/src/DRAMPower/DRAMPower/util/dbi.h
index 9f2bae1..cc72bfc 100644
--- a/src/DRAMPower/DRAMPower/util/dbi.h
+++ b/src/DRAMPower/DRAMPower/util/dbi.h
@@ -137,7 +137,7 @@ private:
             m_lastbeat.clear();
             m_lastbeat.reserve(m_lastbeatSize);
             for (std::size_t i = 0; i < m_lastbeatSize; ++i) {
-                bool entry;
+                DataType_t entry;
                 stream.read(reinterpret_cast<char*>(&entry), sizeof(entry));
                 m_lastbeat.push_back(entry);
             }
@@ -341,7 +341,7 @@ public:
         m_invertedData.clear();
         m_invertedData.reserve(invertedDataSize);
         for (std::size_t i = 0; i < invertedDataSize; ++i) {
-            uint8_t byte;
+            DataType_t byte;
             stream.read(reinterpret_cast<char*>(&byte), sizeof(byte));
             m_invertedData.push_back(byte);
         }
-- 
2.43.0


From e96f7502afe95c46596d338f4bb4a7ff4fca4306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:22 +0000
Subject: [PATCH 15/20] fix: saved LPDDR4 interface keeps the data bus
 inversion state

---
 .../DRAMPower/standards/lpddr4/LPDDR4Interface.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
index c2cace5..aa27061 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
@@ -274,6 +274,13 @@ void LPDDR4Interface::serialize(std::ostream& stream) const {
     m_readDQS.serialize(stream);
     m_writeDQS.serialize(stream);
     m_clock.serialize(stream);
+    m_dbi.serialize(stream);
+    for (const auto& pin : m_dbiread) {
+        pin.serialize(stream);
+    }
+    for (const auto& pin : m_dbiwrite) {
+        pin.serialize(stream);
+    }
 }
 void LPDDR4Interface::deserialize(std::istream& stream) {
     stream.read(reinterpret_cast<char*>(&m_last_command_time), sizeof(m_last_command_time));
@@ -283,6 +290,13 @@ void LPDDR4Interface::deserialize(std::istream& stream) {
     m_readDQS.deserialize(stream);
     m_writeDQS.deserialize(stream);
     m_clock.deserialize(stream);
+    m_dbi.deserialize(stream);
+    for (auto& pin : m_dbiread) {
+        pin.deserialize(stream);
+    }
+    for (auto& pin : m_dbiwrite) {
+        pin.deserialize(stream);
+    }
 }
 
 
-- 
2.43.0


From 05e8ab6502663ccdc6cff0a322de525b3a66aa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:22 +0000
Subject: [PATCH 16/20] fix: saved LPDDR5 interface keeps the data bus
 inversion state

---
 .../DRAMPower/standards/lpddr5/LPDDR5Interface.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
index 05044bf..5825ca0 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
@@ -400,6 +400,13 @@ void LPDDR5Interface::serialize(std::ostream& stream) const {
     m_readDQS.serialize(stream);
     m_wck.serialize(stream);
     m_clock.serialize(stream);
+    m_dbi.serialize(stream);
+    for (const auto& pin : m_dbiread) {
+        pin.serialize(stream);
+    }
+    for (const auto& pin : m_dbiwrite) {
+        pin.serialize(stream);
+    }
 }
 void LPDDR5Interface::deserialize(std::istream& stream) {
     stream.read(reinterpret_cast<char*>(&m_last_command_time), sizeof(m_last_command_time));
@@ -409,6 +416,13 @@ void LPDDR5Interface::deserialize(std::istream& stream) {
     m_readDQS.deserialize(stream);
     m_wck.deserialize(stream);
     m_clock.deserialize(stream);
+    m_dbi.deserialize(stream);
+    for (auto& pin : m_dbiread) {
+        pin.deserialize(stream);
+    }
+    for (auto& pin : m_dbiwrite) {
+        pin.deserialize(stream);
+    }
 }
 
 } // namespace DRAMPower
\ No newline at end of file
-- 
2.43.0


From e7d742222f4e94a48918c1df397db540f4ffd36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:22 +0000
Subject: [PATCH 17/20] fix: saved LPDDR6 interface keeps the data bus
 inversion state, metadata and enabled flag

---
 .../DRAMPower/standards/lpddr6/LPDDR6Interface.cpp     | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
index 77d7e90..b7d7d4e 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
@@ -378,6 +378,11 @@ void LPDDR6Interface::serialize(std::ostream& stream) const {
     m_readDQS.serialize(stream);
     m_wck.serialize(stream);
     m_clock.serialize(stream);
+    m_dbi.serialize(stream);
+    for (const auto& metaData : m_formatter.m_metaData) {
+        stream.write(reinterpret_cast<const char*>(&metaData), sizeof(metaData));
+    }
+    stream.write(reinterpret_cast<const char*>(&m_enabled), sizeof(m_enabled));
 }
 
 void LPDDR6Interface::deserialize(std::istream& stream) {
@@ -388,6 +393,11 @@ void LPDDR6Interface::deserialize(std::istream& stream) {
     m_readDQS.deserialize(stream);
     m_wck.deserialize(stream);
     m_clock.deserialize(stream);
+    m_dbi.deserialize(stream);
+    for (auto& metaData : m_formatter.m_metaData) {
+        stream.read(reinterpret_cast<char*>(&metaData), sizeof(metaData));
+    }
+    stream.read(reinterpret_cast<char*>(&m_enabled), sizeof(m_enabled));
 }
 
 std::tuple<const uint8_t*, std::size_t> LPDDR6Interface::DataFormatter::formatData(
-- 
2.43.0


From f9846d6ffe58fd10efcb429ab2f877760eb609b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:38 +0000
Subject: [PATCH 18/20] fix: DBI pin statistics are taken at the data rate of
 the memory, not at two

---
 src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp     | 4 ++--
 src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp | 4 ++--
 src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
index 6845467..c7a455f 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
@@ -364,10 +364,10 @@ namespace DRAMPower {
         stats.writeDQSStats = NumDQsPairs * 2u * m_writeDQS.get_stats_at(timestamp);
 
         for (const auto &dbi_pin : m_dbiread) {
-            stats.readDBI += dbi_pin.get_stats_at(timestamp, 2);
+            stats.readDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
         }
         for (const auto &dbi_pin : m_dbiwrite) {
-            stats.writeDBI += dbi_pin.get_stats_at(timestamp, 2);
+            stats.writeDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
         }
     }
 
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
index aa27061..ccc2703 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
@@ -254,10 +254,10 @@ void LPDDR4Interface::getWindowStats(timestamp_t timestamp, SimulationStats &sta
     stats.writeDQSStats = 2 * m_writeDQS.get_stats_at(timestamp);
 
     for (const auto &dbi_pin : m_dbiread) {
-        stats.readDBI += dbi_pin.get_stats_at(timestamp, 2);
+        stats.readDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
     }
     for (const auto &dbi_pin : m_dbiwrite) {
-        stats.writeDBI += dbi_pin.get_stats_at(timestamp, 2);
+        stats.writeDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
     }
 
     if (m_memSpec.bitWidth == 16) {
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
index 5825ca0..03f4ce4 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
@@ -385,10 +385,10 @@ void LPDDR5Interface::getWindowStats(timestamp_t timestamp, SimulationStats &sta
     stats.readDQSStats = 2.0 * m_readDQS.get_stats_at(timestamp);
 
     for (const auto &dbi_pin : m_dbiread) {
-        stats.readDBI += dbi_pin.get_stats_at(timestamp, 2);
+        stats.readDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
     }
     for (const auto &dbi_pin : m_dbiwrite) {
-        stats.writeDBI += dbi_pin.get_stats_at(timestamp, 2);
+        stats.writeDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
     }
 }
 
-- 
2.43.0


From 908a4efcb5fd3de12cc40ccccbf208d0b3475c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:38 +0000
Subject: [PATCH 19/20] fix: DDR5 self-refresh exit had no command bus pattern

---
 src/DRAMPower/DRAMPower/standards/ddr5/DDR5Interface.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Interface.cpp b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Interface.cpp
index 777c51b..a8953b7 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Interface.cpp
@@ -97,6 +97,10 @@ void DDR5Interface::registerPatterns() {
     m_patternHandler.registerPattern<CmdType::SREFEN>({
         H, H, H, L, H, V, V, V, V, H, L, V, V, V
     });
+    // SREFEX
+    m_patternHandler.registerPattern<CmdType::SREFEX>({
+        H, H, H, H, H, V, V, V, V, V, V, V, V, V
+    });
     // PDEA
     m_patternHandler.registerPattern<CmdType::PDEA>({
         H, H, H, L, H, V, V, V, V, V, H, L, V, V
-- 
2.43.0


From a0e18172151562248143a334dc56ef12ae3eaad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:18 +0000
Subject: [PATCH 20/20] fix: formatting an LPDDR6 transfer shifted the
 inversion flags by more than their width

---
 src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
index b7d7d4e..bf9d485 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
@@ -453,7 +453,7 @@ std::tuple<const uint8_t*, std::size_t> LPDDR6Interface::DataFormatter::formatDa
             int mapping = dataBitsPerBurstNoMetaNoDBI * burst24 + dataBitMapping[dataBitIdx]; 
             bool dataBit = (inputData[mapping >> 3] >> (mapping & 7)) & 1;
             bool metaBit = (m_metaData[burst24] >> bitOffset) & 1;
-            bool dbiBit = (dbival >> ((16 * burst24) + bitOffset)) & 1;
+            bool dbiBit = isDbi && ((dbival >> ((16 * burst24) + bitOffset)) & 1);
 
             bool bitValue = (dbiBit && isDbi) || (metaBit && isMeta) || (dataBit && isData);
 
-- 
2.43.0


From 6665c1f9fa18fc33a3a146d34e8685f449534b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 1/4] fix: do not dereference missing ticket attributes while
 filtering

A ticket without attributes made filter.In panic as soon as the pool had a
numeric or string filter; such a ticket simply does not match.
---
 core/internal/filter/filter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/internal/filter/filter.go b/core/internal/filter/filter.go
index c30ebb0..83496d6 100644
--- a/core/internal/filter/filter.go
+++ b/core/internal/filter/filter.go
@@ -86,7 +86,7 @@ func In(pool *pb.Pool, ticket *pb.Ticket) bool {
 	}
 
 	for _, filter := range pool.DoubleRangeFilters {
-		v, ok := filterableFields.DoubleArgs[filter.GetDoubleArg()]
+		v, ok := filterableFields.GetDoubleArgs()[filter.GetDoubleArg()]
 		if !ok {
 			return false
 		}
@@ -113,7 +113,7 @@ func In(pool *pb.Pool, ticket *pb.Ticket) bool {
 	}
 
 	for _, f := range pool.StringEqualsFilters {
-		v, ok := filterableFields.StringArgs[f.GetStringArg()]
+		v, ok := filterableFields.GetStringArgs()[f.GetStringArg()]
 		if !ok {
 			return false
 		}
-- 
2.43.0


From 5b692a68dd5f937aa3befca709336ee0f46c0dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:32 +0000
Subject: [PATCH 2/4] fix: do not crash when a pool's first chunk holds no
 participants

---
 mmf/server/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmf/server/server.go b/mmf/server/server.go
index dbdc0d2..be2e99d 100644
--- a/mmf/server/server.go
+++ b/mmf/server/server.go
@@ -92,6 +92,9 @@ func GetChunkedRequest(stream pb.MatchMakingFunctionService_RunServer) (*pb.Prof
 					Extensions:              pool.GetExtensions(),
 					Participants:            pool.GetParticipants(),
 				}
+			} else if pools[name].GetParticipants() == nil {
+				// No earlier chunk held participants of this pool.
+				pools[name].Participants = pool.GetParticipants()
 			} else {
 				// concate pools split amoung multiple chunks
 				pools[name].Participants.Tickets = append(pools[name].Participants.Tickets, pool.GetParticipants().GetTickets()...)
-- 
2.43.0


From 761f7372427202bd7a0eb995de30042dfdc1e0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:04 +0000
Subject: [PATCH 3/4] fix: IsDebugEnabled reads the logging level that is
 configured (OM_LOGGING_LEVEL)

---
 core/internal/logging/logging.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/internal/logging/logging.go b/core/internal/logging/logging.go
index 5b7b1d3..9cbe9f0 100644
--- a/core/internal/logging/logging.go
+++ b/core/internal/logging/logging.go
@@ -67,7 +67,7 @@ func toLevel(level string) logrus.Level {
 
 // IsDebugEnabled returns true if the logging level is debug or more granular.
 func IsDebugEnabled(cfg *viper.Viper) bool {
-	return IsDebugLevel(cfg.GetString("logging.level"))
+	return IsDebugLevel(cfg.GetString("OM_LOGGING_LEVEL"))
 }
 
 // IsDebugLevel returns true if the logging level is debug or more granular.
-- 
2.43.0


From 1a3f4fd39456f37ae990fda0aff8eea8397cff8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:04 +0000
Subject: [PATCH 4/4] fix: a ticket created while the active tickets are copied
 is not taken for active

---
 core/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/main.go b/core/main.go
index f603ef2..0feb6eb 100644
--- a/core/main.go
+++ b/core/main.go
@@ -951,6 +951,11 @@ func setDifference(tix *sync.Map, inactiveSet *sync.Map) (activeTickets []any) {
 		// not ok means an error was encountered, indicating this
 		// ticket is NOT inactive (meaning it IS active)
 		if _, ok := inactiveTicketIds[id.(string)]; !ok {
+			// A ticket created after the snapshot of the inactive set was
+			// marked inactive before it became visible here.
+			if _, inactive := inactiveSet.Load(id); inactive {
+				return true
+			}
 			activeTickets = append(activeTickets, ticket)
 		}
 		return true
-- 
2.43.0


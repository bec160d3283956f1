From 56c9369709bcb918141ddfdd6f18d78edb4f55d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:29 +0000
Subject: [PATCH 01/47] fix: an unparseable integer or boolean setting must not
 override its default

---
 internal/config/viper_config.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/internal/config/viper_config.go b/internal/config/viper_config.go
index 1721de7..c2ad325 100644
--- a/internal/config/viper_config.go
+++ b/internal/config/viper_config.go
@@ -3,6 +3,7 @@ package config
 import (
 	"time"
 
+	"github.com/spf13/cast"
 	"github.com/spf13/viper"
 )
 
@@ -122,7 +123,17 @@ func (config *ViperConfigKey) GetBool() bool {
 		defaultVal = val
 	}
 
-	return getWithFallback(config, defaultVal, viper.GetBool)
+	// As in GetDuration, an unparseable value is not a valid override.
+	getBool := func(key string) bool {
+		value, err := cast.ToBoolE(viper.Get(key))
+		if err != nil {
+			return defaultVal
+		}
+
+		return value
+	}
+
+	return getWithFallback(config, defaultVal, getBool)
 }
 
 // Should never be called before config is initialized using config.Configure()
@@ -132,5 +143,15 @@ func (config *ViperConfigKey) GetInt() int {
 		defaultVal = val
 	}
 
-	return getWithFallback(config, defaultVal, viper.GetInt)
+	// As in GetDuration, an unparseable value is not a valid override.
+	getInt := func(key string) int {
+		value, err := cast.ToIntE(viper.Get(key))
+		if err != nil {
+			return defaultVal
+		}
+
+		return value
+	}
+
+	return getWithFallback(config, defaultVal, getInt)
 }
-- 
2.43.0


From d38721b7e6857e55416bba8a8167ef1d70f887ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:29 +0000
Subject: [PATCH 02/47] fix: treat not-a-number scores like unset ones

---
 internal/queue/score/score.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/internal/queue/score/score.go b/internal/queue/score/score.go
index 18f1242..264db62 100644
--- a/internal/queue/score/score.go
+++ b/internal/queue/score/score.go
@@ -1,6 +1,7 @@
 package score
 
 import (
+	"math"
 	"time"
 
 	"github.com/takenet/deckard/internal/dtime"
@@ -13,12 +14,12 @@ var Min float64 = 0
 var Undefined float64 = -1
 
 // GetPullMaxScore returns the upper threshold priority filter for a pull request.
-// If the score is zero, it returns nil.
+// If the score is zero or NaN, it returns nil.
 // If the score is greater than Max, it returns Max.
 // If the score is less than Min, it returns Min.
 // Otherwise, it returns the score.
 func GetPullMaxScore(score float64) *float64 {
-	if score == 0 {
+	if score == 0 || math.IsNaN(score) {
 		return nil
 	}
 
@@ -34,12 +35,12 @@ func GetPullMaxScore(score float64) *float64 {
 }
 
 // GetPullMinScore returns the lower threshold priority filter for a pull request.
-// If the score is zero, it returns nil.
+// If the score is zero or NaN, it returns nil.
 // If the score is less than or equal to Min, it returns Min.
 // If the score is greater than Max, it returns Max.
 // Otherwise, it returns the score.
 func GetPullMinScore(score float64) *float64 {
-	if score == 0 {
+	if score == 0 || math.IsNaN(score) {
 		return nil
 	}
 
@@ -58,13 +59,13 @@ func GetPullMinScore(score float64) *float64 {
 //
 // requestScore: the requested score for the message
 //
-// If the requestScore is 0, the value will be set with the current timestamp in milliseconds.
+// If the requestScore is 0 or NaN, the value will be set with the current timestamp in milliseconds.
 //
 // The maximum score accepted by Deckard is 9007199254740992 and the minimum is 0, so the requestScore will be capped to these values.
 //
 // Negative scores are not allowed and will be converted to 0
 func GetAddScore(addRequestScore float64) float64 {
-	if addRequestScore == 0 {
+	if addRequestScore == 0 || math.IsNaN(addRequestScore) {
 		return GetScoreByDefaultAlgorithm()
 	}
 
-- 
2.43.0


From fcd1e3b19d7296410eb258c1d258c600694ee3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:51 +0000
Subject: [PATCH 03/47] fix: measure ack deadlines of the memory cache in
 milliseconds

---
 internal/queue/cache/memory_cache.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/queue/cache/memory_cache.go b/internal/queue/cache/memory_cache.go
index f9d0135..5bd3581 100644
--- a/internal/queue/cache/memory_cache.go
+++ b/internal/queue/cache/memory_cache.go
@@ -279,7 +279,7 @@ func (cache *MemoryCache) PullMessages(ctx context.Context, queue string, n int6
 
 		processingEntry := &MemoryMessageEntry{
 			id:    entry.id,
-			score: float64(dtime.Now().Unix() + ackDeadlineMs),
+			score: float64(dtime.NowMs() + ackDeadlineMs),
 		}
 
 		cache.processingQueues[queue], _ = insertEntry(processingEntry, cache.processingQueues[queue])
@@ -302,7 +302,7 @@ func (cache *MemoryCache) TimeoutMessages(_ context.Context, queue string) (ids
 		return nil, nil
 	}
 
-	timeoutTime := dtime.Now().Unix()
+	timeoutTime := dtime.NowMs()
 
 	count := int64(0)
 
-- 
2.43.0


From c95308a860c9c5bd36b4a5dd8666c00f77e8435d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:05 +0000
Subject: [PATCH 04/47] fix: unlock and time out every due message of the
 memory cache in one run

---
 internal/queue/cache/memory_cache.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/queue/cache/memory_cache.go b/internal/queue/cache/memory_cache.go
index 5bd3581..51b927a 100644
--- a/internal/queue/cache/memory_cache.go
+++ b/internal/queue/cache/memory_cache.go
@@ -227,11 +227,13 @@ func (cache *MemoryCache) UnlockMessages(ctx context.Context, queue string, lock
 			continue
 		}
 
-		for e := list.Front(); e != nil; e = e.Next() {
-			value := e.Value.(*MemoryMessageEntry)
+		for e := list.Front(); e != nil; {
+			current := e
+			value := current.Value.(*MemoryMessageEntry)
+			e = e.Next()
 
 			if nowMs >= int64(value.lockUntil) {
-				list.Remove(e)
+				list.Remove(current)
 
 				if score.IsUndefined(value.score) {
 					value.score = defaultScore
@@ -307,8 +309,9 @@ func (cache *MemoryCache) TimeoutMessages(_ context.Context, queue string) (ids
 	count := int64(0)
 
 	result := make([]string, 0)
-	for e := cache.processingQueues[queue].Front(); e != nil; e = e.Next() {
+	for e := cache.processingQueues[queue].Front(); e != nil; {
 		value := e.Value.(*MemoryMessageEntry)
+		e = e.Next()
 
 		if value.score <= float64(timeoutTime) {
 			value.score = score.Min
-- 
2.43.0


From 1a1a548ad2bebda69ce152eeae04e0ad19f5c1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:05 +0000
Subject: [PATCH 05/47] fix: unlock only the messages of the given queue in the
 memory cache

---
 internal/queue/cache/memory_cache.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/internal/queue/cache/memory_cache.go b/internal/queue/cache/memory_cache.go
index 51b927a..4b02e4b 100644
--- a/internal/queue/cache/memory_cache.go
+++ b/internal/queue/cache/memory_cache.go
@@ -220,13 +220,7 @@ func (cache *MemoryCache) UnlockMessages(ctx context.Context, queue string, lock
 	nowMs := dtime.NowMs()
 
 	unlockedMessages := make([]string, 0)
-	for queue := range data {
-		list := data[queue]
-
-		if list == nil {
-			continue
-		}
-
+	if list := data[queue]; list != nil {
 		for e := list.Front(); e != nil; {
 			current := e
 			value := current.Value.(*MemoryMessageEntry)
-- 
2.43.0


From 3d078fdce410ae35795e7afcc8e0608ae578e0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 06/47] fix: messages outside the score bounds must not count
 towards a memory pull's amount

---
 internal/queue/cache/memory_cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/queue/cache/memory_cache.go b/internal/queue/cache/memory_cache.go
index 4b02e4b..986b062 100644
--- a/internal/queue/cache/memory_cache.go
+++ b/internal/queue/cache/memory_cache.go
@@ -260,7 +260,7 @@ func (cache *MemoryCache) PullMessages(ctx context.Context, queue string, n int6
 	result := make([]string, 0, utils.MinInt64(n, total))
 
 	filteredOut := make([]*MemoryMessageEntry, 0)
-	for i := int64(0); i < n && i < total && cache.queues[queue].Len() != 0; i++ {
+	for i := int64(0); int64(len(result)) < n && i < total && cache.queues[queue].Len() != 0; i++ {
 		element := cache.queues[queue].Front()
 
 		entry := element.Value.(*MemoryMessageEntry)
-- 
2.43.0


From a0cdadabd4ac654f8c5fcb7b9fab35da2c2f1549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 07/47] fix: guard the queue configurations of the memory
 storage and do not share them with callers

---
 internal/queue/storage/memory_storage.go | 28 +++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index d2b021e..416f235 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -39,11 +39,15 @@ func NewMemoryStorage(ctx context.Context) *MemoryStorage {
 }
 
 func (storage *MemoryStorage) ListQueueConfigurations(ctx context.Context) ([]*configuration.QueueConfiguration, error) {
+	storage.lock.RLock()
+	defer storage.lock.RUnlock()
+
 	configurations := make([]*configuration.QueueConfiguration, len(storage.configurations))
 
 	configurationIndex := 0
 	for i := range storage.configurations {
-		configurations[configurationIndex] = storage.configurations[i]
+		result := *storage.configurations[i]
+		configurations[configurationIndex] = &result
 
 		configurationIndex += 1
 	}
@@ -56,17 +60,31 @@ func (storage *MemoryStorage) EditQueueConfiguration(_ context.Context, configur
 		return nil
 	}
 
-	if configuration.MaxElements < 0 {
-		configuration.MaxElements = 0
+	stored := *configuration
+	if stored.MaxElements < 0 {
+		stored.MaxElements = 0
 	}
 
-	storage.configurations[configuration.Queue] = configuration
+	storage.lock.Lock()
+	defer storage.lock.Unlock()
+
+	storage.configurations[configuration.Queue] = &stored
 
 	return nil
 }
 
 func (storage *MemoryStorage) GetQueueConfiguration(_ context.Context, queue string) (*configuration.QueueConfiguration, error) {
-	return storage.configurations[queue], nil
+	storage.lock.RLock()
+	defer storage.lock.RUnlock()
+
+	stored, found := storage.configurations[queue]
+	if !found {
+		return nil, nil
+	}
+
+	result := *stored
+
+	return &result, nil
 }
 
 func (storage *MemoryStorage) Flush(_ context.Context) (deletedCount int64, err error) {
-- 
2.43.0


From e4bdb2a099469c95dfe6201249d81e0097736b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 08/47] fix: keep messages apart whose queue and id contain the
 key separator in the memory storage

---
 internal/queue/storage/memory_storage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index 416f235..5e9225a 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -153,7 +153,7 @@ func (storage *MemoryStorage) GetStringInternalId(_ context.Context, message *me
 }
 
 func getKey(message *message.Message) string {
-	return message.Queue + ":" + message.ID
+	return strconv.Itoa(len(message.Queue)) + ":" + message.Queue + ":" + message.ID
 }
 
 func (storage *MemoryStorage) Count(_ context.Context, findOpts *FindOptions, _ *CountOptions) (int64, error) {
-- 
2.43.0


From 56f76e4f89addd90b8dbd8660bbd3e2a166f1193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 09/47] fix: a batch with an invalid message must not be
 partially stored by the memory storage

---
 internal/queue/storage/memory_storage.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index 5e9225a..c106f74 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -112,7 +112,9 @@ func (storage *MemoryStorage) Insert(_ context.Context, messages ...*message.Mes
 		if messages[i].ID == "" {
 			return 0, 0, fmt.Errorf("message has a invalid ID")
 		}
+	}
 
+	for i := range messages {
 		key := getKey(messages[i])
 
 		storage.lock.RLock()
-- 
2.43.0


From 985e98ddedd6002c6172b0bec080ec928aff2d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 10/47] fix: make the memory storage's read-modify-write
 operations atomic and stop sharing its documents

---
 internal/queue/storage/memory_storage.go | 58 +++++++++++++++++-------
 1 file changed, 42 insertions(+), 16 deletions(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index c106f74..656c658 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -114,14 +114,14 @@ func (storage *MemoryStorage) Insert(_ context.Context, messages ...*message.Mes
 		}
 	}
 
+	storage.lock.Lock()
+	defer storage.lock.Unlock()
+
 	for i := range messages {
 		key := getKey(messages[i])
 
-		storage.lock.RLock()
 		_, present := storage.docs[key]
-		storage.lock.RUnlock()
 
-		storage.lock.Lock()
 		if present {
 			modified++
 
@@ -137,10 +137,9 @@ func (storage *MemoryStorage) Insert(_ context.Context, messages ...*message.Mes
 			messages[i].InternalId = storage.internalCounter
 			now := dtime.Now()
 			messages[i].LastUsage = &now
-			storage.docs[key] = messages[i]
+			stored := *messages[i]
+			storage.docs[key] = &stored
 		}
-
-		storage.lock.Unlock()
 	}
 
 	return inserted, modified, nil
@@ -266,7 +265,10 @@ func (storage *MemoryStorage) Find(_ context.Context, opt *FindOptions) ([]messa
 		}
 
 		if matches {
-			messages = append(messages, *storage.docs[k])
+			found := *storage.docs[k]
+			found.Diagnostics = copyDiagnostics(found.Diagnostics)
+
+			messages = append(messages, found)
 		}
 	}
 
@@ -310,6 +312,33 @@ func (storage *MemoryStorage) Find(_ context.Context, opt *FindOptions) ([]messa
 	return messages, nil
 }
 
+// copyDiagnostics detaches a result from the stored counters, which later acks and nacks change in place.
+func copyDiagnostics(diagnostics *message.MessageDiagnostics) *message.MessageDiagnostics {
+	if diagnostics == nil {
+		return nil
+	}
+
+	copied := message.MessageDiagnostics{}
+
+	if diagnostics.Acks != nil {
+		copied.Acks = utils.Int64Ptr(*diagnostics.Acks)
+	}
+
+	if diagnostics.Nacks != nil {
+		copied.Nacks = utils.Int64Ptr(*diagnostics.Nacks)
+	}
+
+	if diagnostics.ConsecutiveAcks != nil {
+		copied.ConsecutiveAcks = utils.Int64Ptr(*diagnostics.ConsecutiveAcks)
+	}
+
+	if diagnostics.ConsecutiveNacks != nil {
+		copied.ConsecutiveNacks = utils.Int64Ptr(*diagnostics.ConsecutiveNacks)
+	}
+
+	return &copied
+}
+
 func isExpired(message *message.Message) bool {
 	return !message.Timeless && (message.ExpiryDate.Before(dtime.Now()) || message.ExpiryDate.Equal(dtime.Now()))
 }
@@ -337,15 +366,15 @@ func (storage *MemoryStorage) Remove(_ context.Context, queue string, ids ...str
 }
 
 func (storage *MemoryStorage) Ack(_ context.Context, msg *message.Message) (modifiedCount int64, err error) {
-	storage.lock.RLock()
+	storage.lock.Lock()
+	defer storage.lock.Unlock()
+
 	value, contains := storage.docs[getKey(msg)]
-	storage.lock.RUnlock()
 
 	if !contains {
 		return 0, nil
 	}
 
-	storage.lock.Lock()
 	value.TotalScoreSubtract += msg.LastScoreSubtract
 	value.UsageCount += 1
 	value.LastUsage = msg.LastUsage
@@ -360,21 +389,19 @@ func (storage *MemoryStorage) Ack(_ context.Context, msg *message.Message) (modi
 	*value.Diagnostics.ConsecutiveAcks = *value.Diagnostics.ConsecutiveAcks + 1
 	*value.Diagnostics.ConsecutiveNacks = 0
 
-	storage.lock.Unlock()
-
 	return 1, nil
 }
 
 func (storage *MemoryStorage) Nack(_ context.Context, msg *message.Message) (modifiedCount int64, err error) {
-	storage.lock.RLock()
+	storage.lock.Lock()
+	defer storage.lock.Unlock()
+
 	value, contains := storage.docs[getKey(msg)]
-	storage.lock.RUnlock()
 
 	if !contains {
 		return 0, nil
 	}
 
-	storage.lock.Lock()
 	value.Score = msg.Score
 	value.LockMs = msg.LockMs
 
@@ -383,7 +410,6 @@ func (storage *MemoryStorage) Nack(_ context.Context, msg *message.Message) (mod
 	*value.Diagnostics.Nacks = *value.Diagnostics.Nacks + 1
 	*value.Diagnostics.ConsecutiveNacks = *value.Diagnostics.ConsecutiveNacks + 1
 	*value.Diagnostics.ConsecutiveAcks = 0
-	storage.lock.Unlock()
 
 	return 1, nil
 }
-- 
2.43.0


From 66ed1d19f07aeea0bbcbc9894d9f7064b9b0ba91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 11/47] fix: count a message once when the memory storage is
 asked to remove its id repeatedly

---
 internal/queue/storage/memory_storage.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index 656c658..1884096 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -357,6 +357,8 @@ func (storage *MemoryStorage) Remove(_ context.Context, queue string, ids ...str
 				delete(storage.docs, key)
 
 				count++
+
+				break
 			}
 		}
 	}
-- 
2.43.0


From 205521295f7fbddf84ea0be1bc9bf7f5a3abacfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 12/47] fix: release the memory storage's lock when counting
 fails

---
 internal/queue/storage/memory_storage.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index 1884096..7b35b8f 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -161,6 +161,8 @@ func (storage *MemoryStorage) Count(_ context.Context, findOpts *FindOptions, _
 	count := int64(0)
 
 	storage.lock.RLock()
+	defer storage.lock.RUnlock()
+
 	for _, value := range storage.docs {
 		matches, err := messageMatchesFilter(value, findOpts)
 
@@ -172,7 +174,6 @@ func (storage *MemoryStorage) Count(_ context.Context, findOpts *FindOptions, _
 			count++
 		}
 	}
-	storage.lock.RUnlock()
 
 	return count, nil
 }
-- 
2.43.0


From 47f11b4e3bc5bbd46d5001715497d4f1d17b3da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 13/47] fix: adding a timeless message again with a time to
 live must let it expire in the memory storage

---
 internal/queue/storage/memory_storage.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index 7b35b8f..68831fc 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -127,6 +127,7 @@ func (storage *MemoryStorage) Insert(_ context.Context, messages ...*message.Mes
 
 			storage.docs[key].Description = messages[i].Description
 			storage.docs[key].ExpiryDate = messages[i].ExpiryDate
+			storage.docs[key].Timeless = messages[i].Timeless
 			storage.docs[key].Metadata = messages[i].Metadata
 			storage.docs[key].Payload = messages[i].Payload
 			storage.docs[key].StringPayload = messages[i].StringPayload
-- 
2.43.0


From 8c95a8e1bcbb5bb00ee5d710af1b3d58dcf30016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:40 +0000
Subject: [PATCH 14/47] fix: sort by last usage in the memory storage, as the
 oldest message metric asks for

---
 internal/queue/storage/memory_storage.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index 68831fc..deeaf5b 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -288,6 +288,16 @@ func (storage *MemoryStorage) Find(_ context.Context, opt *FindOptions) ([]messa
 
 						return messages[i].ExpiryDate.Before(messages[j].ExpiryDate)
 					}
+				case "last_usage":
+					if messages[i].LastUsage == nil || messages[j].LastUsage == nil {
+						return messages[i].LastUsage == nil && messages[j].LastUsage != nil
+					}
+
+					if value == -1 {
+						return messages[i].LastUsage.After(*messages[j].LastUsage)
+					}
+
+					return messages[i].LastUsage.Before(*messages[j].LastUsage)
 				case "score":
 					if value == -1 {
 						return messages[i].Score > messages[j].Score
-- 
2.43.0


From 12aae305d3a6c3a9b65d86fdfaa417205ee9dca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:40 +0000
Subject: [PATCH 15/47] fix: cap ack and nack scores to the accepted range and
 ignore negative lock times

---
 internal/service/deckard_service.go | 31 +++++++++++++++++++----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/internal/service/deckard_service.go b/internal/service/deckard_service.go
index 2b150dd..3af2f25 100644
--- a/internal/service/deckard_service.go
+++ b/internal/service/deckard_service.go
@@ -6,6 +6,7 @@ import (
 	"crypto/x509"
 	"fmt"
 	"io/ioutil"
+	"math"
 	"net"
 	"strings"
 	"time"
@@ -564,16 +565,14 @@ func (d *Deckard) Ack(ctx context.Context, request *deckard.AckRequest) (*deckar
 	// Should set the new score only when not locking the message or if score is provided
 	// On unlock process the score is computed by the default algorithm if the score is not set
 	newScore := score.Undefined
-	if request.Score != 0 {
-		newScore = request.Score
+	if isScoreSet(request.Score) {
+		newScore = capScore(request.Score)
 
-	} else if request.LockMs == 0 {
-		newScore = score.GetScoreByDefaultAlgorithm() - request.ScoreSubtract
+	} else if request.LockMs <= 0 {
+		newScore = score.GetScoreByDefaultAlgorithm()
 
-		if newScore < score.Min {
-			newScore = score.Min
-		} else if newScore > score.Max {
-			newScore = score.Max
+		if isScoreSet(request.ScoreSubtract) {
+			newScore = capScore(newScore - request.ScoreSubtract)
 		}
 	}
 
@@ -613,10 +612,10 @@ func (d *Deckard) Nack(ctx context.Context, request *deckard.AckRequest) (*decka
 	// Should set the new score only when not locking the message or if score is provided
 	// On unlock process the minimum score will be used if the score is not set
 	newScore := score.Undefined
-	if request.Score != 0 {
-		newScore = request.Score
+	if isScoreSet(request.Score) {
+		newScore = capScore(request.Score)
 
-	} else if request.LockMs == 0 {
+	} else if request.LockMs <= 0 {
 		newScore = score.Min
 	}
 
@@ -644,6 +643,16 @@ func (d *Deckard) Nack(ctx context.Context, request *deckard.AckRequest) (*decka
 	return response, nil
 }
 
+// isScoreSet checks if a score was provided in the request. NaN is not a score.
+func isScoreSet(requestScore float64) bool {
+	return requestScore != 0 && !math.IsNaN(requestScore)
+}
+
+// capScore limits a score to the range of scores accepted by Deckard
+func capScore(newScore float64) float64 {
+	return math.Max(score.Min, math.Min(newScore, score.Max))
+}
+
 func (d *Deckard) removeMessageFromAckNack(ctx context.Context, request *deckard.AckRequest) (*deckard.AckResponse, error) {
 	removeResp, err := d.Remove(ctx, &deckard.RemoveRequest{
 		Ids:   []string{request.Id},
-- 
2.43.0


From df252102d148169e5c764743bf1bf0539feb113c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:40 +0000
Subject: [PATCH 16/47] fix: make a nacked message available with the score
 given in the request

---
 internal/queue/queue.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/internal/queue/queue.go b/internal/queue/queue.go
index 9e54731..2408b00 100644
--- a/internal/queue/queue.go
+++ b/internal/queue/queue.go
@@ -15,7 +15,6 @@ import (
 	"github.com/takenet/deckard/internal/metrics"
 	"github.com/takenet/deckard/internal/queue/cache"
 	"github.com/takenet/deckard/internal/queue/message"
-	"github.com/takenet/deckard/internal/queue/score"
 	"github.com/takenet/deckard/internal/queue/storage"
 	"go.opentelemetry.io/otel/attribute"
 	"go.opentelemetry.io/otel/metric"
@@ -205,8 +204,6 @@ func (pool *Queue) Nack(ctx context.Context, msg *message.Message, timestamp tim
 		return result, nil
 	}
 
-	msg.Score = score.Min
-
 	result, err := pool.cache.MakeAvailable(ctx, msg)
 
 	if err != nil {
-- 
2.43.0


From 4d8c0284bacd4b12138816ff8a91739327e22a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:40 +0000
Subject: [PATCH 17/47] fix: times to live, deadlines and lock times near the
 integer limits must not overflow

---
 internal/service/deckard_service.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/internal/service/deckard_service.go b/internal/service/deckard_service.go
index 3af2f25..38bbb19 100644
--- a/internal/service/deckard_service.go
+++ b/internal/service/deckard_service.go
@@ -35,6 +35,12 @@ import (
 	"google.golang.org/protobuf/types/known/anypb"
 )
 
+const (
+	// Durations above these limits overflow when they are added to the current time
+	maxTtlMinutes = int64(math.MaxInt64 / time.Minute)
+	maxDurationMs = int64(1 << 53)
+)
+
 type Deckard struct {
 	queue                     queue.DeckardQueue
 	queueConfigurationService queue.QueueConfigurationService
@@ -323,7 +329,7 @@ func (d *Deckard) Add(ctx context.Context, request *deckard.AddRequest) (*deckar
 		t := dtime.Now()
 
 		if m.TtlMinutes != 0 {
-			t = t.Add(time.Minute * time.Duration(m.TtlMinutes))
+			t = t.Add(time.Minute * time.Duration(min(max(m.TtlMinutes, -maxTtlMinutes), maxTtlMinutes)))
 		}
 
 		if m.Timeless {
@@ -412,7 +418,10 @@ func (d *Deckard) Pull(ctx context.Context, request *deckard.PullRequest) (*deck
 	minScore := score.GetPullMinScore(request.MinScore)
 	maxScore := score.GetPullMaxScore(request.MaxScore)
 
-	messages, err := d.queue.Pull(ctx, request.Queue, amount, minScore, maxScore, request.AckDeadlineMs)
+	// A negative deadline is one that has already passed
+	ackDeadlineMs := max(request.AckDeadlineMs, -1)
+
+	messages, err := d.queue.Pull(ctx, request.Queue, amount, minScore, maxScore, min(ackDeadlineMs, maxDurationMs))
 	if err != nil {
 		return nil, status.Error(codes.Internal, "error pulling messages")
 	}
@@ -584,7 +593,7 @@ func (d *Deckard) Ack(ctx context.Context, request *deckard.AckRequest) (*deckar
 		LastUsage:         &now,
 		Score:             newScore,
 		Breakpoint:        request.Breakpoint,
-		LockMs:            request.LockMs,
+		LockMs:            min(request.LockMs, maxDurationMs),
 	}
 
 	result, err := d.queue.Ack(ctx, &message, request.Reason)
@@ -624,7 +633,7 @@ func (d *Deckard) Nack(ctx context.Context, request *deckard.AckRequest) (*decka
 		Queue:             request.Queue,
 		LastScoreSubtract: request.ScoreSubtract,
 		Breakpoint:        request.Breakpoint,
-		LockMs:            request.LockMs,
+		LockMs:            min(request.LockMs, maxDurationMs),
 		Score:             newScore,
 	}
 
-- 
2.43.0


From 54291ed3c35924f6f68b3278dc3d51af2e520e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:40 +0000
Subject: [PATCH 18/47] fix: count a locked message with a score once when it
 is removed from Redis

---
 internal/queue/cache/redis_cache_scripts.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/queue/cache/redis_cache_scripts.go b/internal/queue/cache/redis_cache_scripts.go
index 6ddf55a..97371d9 100644
--- a/internal/queue/cache/redis_cache_scripts.go
+++ b/internal/queue/cache/redis_cache_scripts.go
@@ -1,15 +1,21 @@
 package cache
 
-// Removes all elements from different sorted sets
+// Removes all elements from different sorted sets and returns the number of messages removed
 //
-// KEYS[1-n] -> sorted sets to remove elements
+// KEYS[1-4] -> pools to remove elements
+//
+// KEYS[5-6] -> lock score sorted sets to remove elements, which are not counted
 //
 // ARGV[1/n] -> elements to remove from all sorted sets
 const removeElementScript = `
 local total = 0
 
-for _, pool in ipairs(KEYS) do
-	total = total + redis.call('ZREM', pool, unpack(ARGV))
+for i, pool in ipairs(KEYS) do
+	local removed = redis.call('ZREM', pool, unpack(ARGV))
+
+	if i <= 4 then
+		total = total + removed
+	end
 end
 
 return total
-- 
2.43.0


From b5320ff6be0227b92d0cf8442afbd2b2dbd2adb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 19/47] fix: synchronize the queue gauges with the metrics
 collection

---
 internal/metrics/metrics.go     |  6 ++++++
 internal/metrics/metrics_map.go | 11 +++++++++++
 2 files changed, 17 insertions(+)

diff --git a/internal/metrics/metrics.go b/internal/metrics/metrics.go
index ce719df..941fd63 100644
--- a/internal/metrics/metrics.go
+++ b/internal/metrics/metrics.go
@@ -314,10 +314,16 @@ func createMetrics() {
 }
 
 func metrifyOldestMessages(obs metric.Int64Observer) error {
+	MetricsMap.lock.RLock()
+	defer MetricsMap.lock.RUnlock()
+
 	return metrify(obs, &MetricsMap.OldestElement)
 }
 
 func metrifyTotalElements(obs metric.Int64Observer) error {
+	MetricsMap.lock.RLock()
+	defer MetricsMap.lock.RUnlock()
+
 	return metrify(obs, &MetricsMap.TotalElements)
 }
 
diff --git a/internal/metrics/metrics_map.go b/internal/metrics/metrics_map.go
index 381bb62..bdbd15c 100644
--- a/internal/metrics/metrics_map.go
+++ b/internal/metrics/metrics_map.go
@@ -1,9 +1,14 @@
 package metrics
 
+import "sync"
+
 // Type to hold map of oldest queue elements
 type QueueMetricsMap struct {
 	OldestElement map[string]int64
 	TotalElements map[string]int64
+
+	// Metrics are collected while the housekeeper updates them
+	lock sync.RWMutex
 }
 
 func NewQueueMetricsMap() *QueueMetricsMap {
@@ -14,10 +19,16 @@ func NewQueueMetricsMap() *QueueMetricsMap {
 }
 
 func (oldestMap *QueueMetricsMap) UpdateOldestElementMap(data map[string]int64) {
+	oldestMap.lock.Lock()
+	defer oldestMap.lock.Unlock()
+
 	oldestMap.OldestElement = mergeData(oldestMap.OldestElement, data)
 }
 
 func (oldestMap *QueueMetricsMap) UpdateTotalElementsMap(data map[string]int64) {
+	oldestMap.lock.Lock()
+	defer oldestMap.lock.Unlock()
+
 	oldestMap.TotalElements = mergeData(oldestMap.TotalElements, data)
 }
 
-- 
2.43.0


From 24cfbebad3c584b4f45fa9514abcc31bea0d4cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 20/47] fix: flush pending traces on shutdown

---
 internal/trace/trace.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/trace/trace.go b/internal/trace/trace.go
index 67487d1..ea67678 100644
--- a/internal/trace/trace.go
+++ b/internal/trace/trace.go
@@ -32,7 +32,7 @@ func Init() error {
 		return err
 	}
 
-	tracerProvider := sdktrace.NewTracerProvider(
+	tracerProvider = sdktrace.NewTracerProvider(
 		sdktrace.WithBatcher(exporter),
 		sdktrace.WithResource(newResource()),
 	)
-- 
2.43.0


From 7038c33d8748d2af460dc29eb9066af7b5456126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 21/47] fix: send every buffered audit entry on shutdown and
 accept late ones

---
 internal/audit/audit.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/internal/audit/audit.go b/internal/audit/audit.go
index 1263d61..858d0cf 100644
--- a/internal/audit/audit.go
+++ b/internal/audit/audit.go
@@ -51,6 +51,7 @@ type Auditor interface {
 type AuditorImpl struct {
 	api           *esapi.API
 	entries       chan Entry
+	stopped       chan struct{}
 	waitGroup     *sync.WaitGroup
 	enabled       bool
 	senderStarted bool
@@ -96,6 +97,7 @@ func NewAuditor(waitGroup *sync.WaitGroup) (*AuditorImpl, error) {
 	return &AuditorImpl{
 		api:       api,
 		entries:   make(chan Entry, 10000),
+		stopped:   make(chan struct{}),
 		waitGroup: waitGroup,
 		enabled:   true,
 	}, nil
@@ -132,11 +134,27 @@ func (a *AuditorImpl) StartSender(ctx context.Context) {
 		case <-ctx.Done():
 			zap.S().Info("Sending remaining audit data.")
 
-			close(a.entries)
+			// Late entries must neither panic nor block their producers
+			defer close(a.stopped)
 
-			a.send(ctx, entriesToSend...)
+			for {
+				select {
+				case entry := <-a.entries:
+					entriesToSend = append(entriesToSend, entry)
+					if len(entriesToSend) == maxEntriesSize {
+						a.send(ctx, entriesToSend...)
 
-			return
+						entriesToSend = make([]Entry, 0, maxEntriesSize)
+					}
+
+					continue
+				default:
+				}
+
+				a.send(ctx, entriesToSend...)
+
+				return
+			}
 		}
 	}
 }
@@ -206,5 +224,8 @@ func (a *AuditorImpl) Store(ctx context.Context, entry Entry) {
 		metrics.AuditorAddToStoreLatency.Record(ctx, dtime.ElapsedTime(entry.Timestamp))
 	}()
 
-	a.entries <- entry
+	select {
+	case a.entries <- entry:
+	case <-a.stopped:
+	}
 }
-- 
2.43.0


From 93097333f3ee08cbffad30df86603367f549f09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 22/47] fix: audit entries with a score that JSON cannot
 represent must not be lost

---
 internal/audit/audit.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/audit/audit.go b/internal/audit/audit.go
index 858d0cf..ed18129 100644
--- a/internal/audit/audit.go
+++ b/internal/audit/audit.go
@@ -9,6 +9,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io/ioutil"
+	"math"
 	"strings"
 	"sync"
 	"time"
@@ -171,14 +172,14 @@ func (a *AuditorImpl) send(ctx context.Context, entries ...Entry) {
 
 	body := ""
 
-	for i, entry := range entries {
+	for _, entry := range entries {
 		marshalled, err := json.Marshal(entry)
 		if err != nil {
 			logger.S(ctx).Error("Error transforming entry. Skipping it.", err)
 			continue
 		}
 
-		if i > 0 {
+		if body != "" {
 			body += "\n"
 		}
 
@@ -212,6 +213,11 @@ func (a *AuditorImpl) Store(ctx context.Context, entry Entry) {
 
 	entry.Timestamp = dtime.Now()
 
+	// Not representable in JSON
+	if math.IsNaN(entry.LastScoreSubtract) || math.IsInf(entry.LastScoreSubtract, 0) {
+		entry.LastScoreSubtract = 0
+	}
+
 	queuePrefix, queueSuffix := message.GetQueueParts(entry.Queue)
 
 	entry.QueuePrefix = queuePrefix
-- 
2.43.0


From 80976ba793743279696d35d5439b0bc2a20bc3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 23/47] fix: close the body of failed audit requests

---
 internal/audit/audit.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/audit/audit.go b/internal/audit/audit.go
index ed18129..8407cc2 100644
--- a/internal/audit/audit.go
+++ b/internal/audit/audit.go
@@ -196,14 +196,16 @@ func (a *AuditorImpl) send(ctx context.Context, entries ...Entry) {
 		return
 	}
 
+	defer func() {
+		// exhaust body so connection can be reused.
+		_, _ = ioutil.ReadAll(response.Body)
+		_ = response.Body.Close()
+	}()
+
 	if response.IsError() {
 		logger.S(ctx).Error("Error sending audit data.", response.String())
 		return
 	}
-
-	// exhaust body so connection can be reused.
-	_, _ = ioutil.ReadAll(response.Body)
-	_ = response.Body.Close()
 }
 
 func (a *AuditorImpl) Store(ctx context.Context, entry Entry) {
-- 
2.43.0


From 63d4e6223a06406ad439118dd7efb1ce251d2757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 24/47] fix: a failing command while recovery finishes must not
 leave it running forever

---
 internal/queue/queue_housekeeper.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/internal/queue/queue_housekeeper.go b/internal/queue/queue_housekeeper.go
index ca83a1c..7bdd156 100644
--- a/internal/queue/queue_housekeeper.go
+++ b/internal/queue/queue_housekeeper.go
@@ -225,8 +225,7 @@ func RecoveryMessagesPool(ctx context.Context, pool *Queue) (metrify bool) {
 	if len(messages) < 4000 {
 		logger.S(ctx).Info("Full recovery finished.")
 
-		_ = pool.cache.Set(ctx, cache.RECOVERY_RUNNING, "false")
-		_ = pool.cache.Set(ctx, cache.RECOVERY_STORAGE_BREAKPOINT_KEY, cache.RECOVERY_FINISHED)
+		finishRecovery(ctx, pool)
 	}
 
 	logger.S(ctx).Debugf("%d messages updated in %s with %s breakpoint.", len(messages), time.Since(t), breakpoint)
@@ -265,8 +264,7 @@ func tryToStartRecovery(ctx context.Context, pool *Queue) bool {
 	if len(messages) == 0 {
 		logger.S(ctx).Info("Storage is empty. Finishing recovery.")
 
-		_ = pool.cache.Set(ctx, cache.RECOVERY_STORAGE_BREAKPOINT_KEY, cache.RECOVERY_FINISHED)
-		_ = pool.cache.Set(ctx, cache.RECOVERY_RUNNING, "false")
+		finishRecovery(ctx, pool)
 
 		return false
 	}
@@ -280,6 +278,18 @@ func tryToStartRecovery(ctx context.Context, pool *Queue) bool {
 	return true
 }
 
+// finishRecovery only marks the recovery as finished after it is not running anymore, otherwise
+// a failure in between would leave it running forever. If it fails the next execution tries again.
+func finishRecovery(ctx context.Context, pool *Queue) {
+	if err := pool.cache.Set(ctx, cache.RECOVERY_RUNNING, "false"); err != nil {
+		logger.S(ctx).Error("Error to set full recovery status: ", err)
+
+		return
+	}
+
+	_ = pool.cache.Set(ctx, cache.RECOVERY_STORAGE_BREAKPOINT_KEY, cache.RECOVERY_FINISHED)
+}
+
 // Remove 10000 expired elements ordered by expiration date asc for each queue.
 func RemoveTTLMessages(ctx context.Context, pool *Queue, filterDate *time.Time) (bool, error) {
 	if isRecovering, err := isRecovering(ctx, pool); isRecovering || err != nil {
-- 
2.43.0


From 830cef1d3d7d9520af3b919b419ce9ec092631ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:51 +0000
Subject: [PATCH 25/47] fix: do not report messages found by the retry as
 missing in storage

---
 internal/queue/queue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/queue/queue.go b/internal/queue/queue.go
index 2408b00..10fe8e8 100644
--- a/internal/queue/queue.go
+++ b/internal/queue/queue.go
@@ -345,7 +345,7 @@ func (pool *Queue) Pull(ctx context.Context, queue string, n int64, minScore *fl
 	}
 
 	if len(retryNotFound) > 0 {
-		metrics.QueueNotFoundInStorage.Add(ctx, int64(len(notFound)), metric.WithAttributes(attribute.String("queue", message.GetQueuePrefix(queue))))
+		metrics.QueueNotFoundInStorage.Add(ctx, int64(len(retryNotFound)), metric.WithAttributes(attribute.String("queue", message.GetQueuePrefix(queue))))
 
 		for _, id := range retryNotFound {
 			pool.auditor.Store(ctx, audit.Entry{
-- 
2.43.0


From 6147b5ae467977ceb1acfe94fa7e0ac5ab3a4e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:51 +0000
Subject: [PATCH 26/47] fix: forget locally cached queue configurations when
 flushing

---
 internal/queue/queue.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/queue/queue.go b/internal/queue/queue.go
index 10fe8e8..a2c1900 100644
--- a/internal/queue/queue.go
+++ b/internal/queue/queue.go
@@ -439,6 +439,11 @@ func (pool *Queue) Flush(ctx context.Context) (bool, error) {
 		return false, err
 	}
 
+	// The flushed configurations must not be served from its local cache
+	if service, ok := pool.QueueConfigurationService.(*DefaultQueueConfigurationService); ok && service != nil {
+		service.localCache.Flush()
+	}
+
 	return true, err
 }
 
-- 
2.43.0


From 735e5eea74a3906d6f9bb13a907f8cd5d3c5d7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 27/47] fix: count identical messages added again as updated in
 the MongoDB storage

---
 internal/queue/storage/mongo_storage.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/queue/storage/mongo_storage.go b/internal/queue/storage/mongo_storage.go
index 6c06a87..6c98802 100644
--- a/internal/queue/storage/mongo_storage.go
+++ b/internal/queue/storage/mongo_storage.go
@@ -516,7 +516,8 @@ func (storage *MongoStorage) Insert(ctx context.Context, messages ...*message.Me
 		return 0, 0, fmt.Errorf("error writing to mongodb storage: %w", err)
 	}
 
-	return res.InsertedCount + res.UpsertedCount, res.ModifiedCount, nil
+	// An update that changes nothing still found its message
+	return res.InsertedCount + res.UpsertedCount, res.MatchedCount, nil
 }
 
 // Ack updates the messages on mongostorage with updated status, score and diagnostic information.
-- 
2.43.0


From f03d2dbb972629ec0191bcfc6f4099085f4f7f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 28/47] fix: adding no messages must not fail with the MongoDB
 storage

---
 internal/queue/storage/mongo_storage.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/queue/storage/mongo_storage.go b/internal/queue/storage/mongo_storage.go
index 6c98802..c115add 100644
--- a/internal/queue/storage/mongo_storage.go
+++ b/internal/queue/storage/mongo_storage.go
@@ -450,6 +450,11 @@ func attemptChunkDeletion(ctx context.Context, i int, ids []string, queue string
 }
 
 func (storage *MongoStorage) Insert(ctx context.Context, messages ...*message.Message) (insertedCount int64, modifiedCount int64, err error) {
+	// MongoDB rejects an empty bulk write
+	if len(messages) == 0 {
+		return 0, 0, nil
+	}
+
 	updates := make([]mongo.WriteModel, 0, len(messages))
 
 	now := dtime.Now()
-- 
2.43.0


From 27483598084ad867b019c18ec4a65945ce4f021b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:35 +0000
Subject: [PATCH 29/47] fix: an edited queue configuration must not be hidden
 by a value read before the edit

---
 internal/queue/queue.go                       |  2 ++
 internal/queue/queue_configuration_service.go | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/internal/queue/queue.go b/internal/queue/queue.go
index a2c1900..4198d29 100644
--- a/internal/queue/queue.go
+++ b/internal/queue/queue.go
@@ -441,7 +441,9 @@ func (pool *Queue) Flush(ctx context.Context) (bool, error) {
 
 	// The flushed configurations must not be served from its local cache
 	if service, ok := pool.QueueConfigurationService.(*DefaultQueueConfigurationService); ok && service != nil {
+		service.lock.Lock()
 		service.localCache.Flush()
+		service.lock.Unlock()
 	}
 
 	return true, err
diff --git a/internal/queue/queue_configuration_service.go b/internal/queue/queue_configuration_service.go
index fe02e30..e8abc08 100644
--- a/internal/queue/queue_configuration_service.go
+++ b/internal/queue/queue_configuration_service.go
@@ -2,6 +2,7 @@ package queue
 
 import (
 	"context"
+	"sync"
 	"time"
 
 	"github.com/patrickmn/go-cache"
@@ -17,6 +18,9 @@ type QueueConfigurationService interface {
 type DefaultQueueConfigurationService struct {
 	storage    storage.Storage
 	localCache *cache.Cache
+
+	// Keeps a value read from the storage before an edit from being cached after it
+	lock sync.Mutex
 }
 
 func NewQueueConfigurationService(_ context.Context, storage storage.Storage) *DefaultQueueConfigurationService {
@@ -39,6 +43,9 @@ func (queueService *DefaultQueueConfigurationService) EditQueueConfiguration(ctx
 		return nil
 	}
 
+	queueService.lock.Lock()
+	defer queueService.lock.Unlock()
+
 	config, found := queueService.localCache.Get(cfg.Queue)
 
 	if !found {
@@ -64,6 +71,9 @@ func (queueService *DefaultQueueConfigurationService) GetQueueConfiguration(ctx
 		return cacheConfig.(*configuration.QueueConfiguration), nil
 	}
 
+	queueService.lock.Lock()
+	defer queueService.lock.Unlock()
+
 	var err error
 	var config *configuration.QueueConfiguration
 
-- 
2.43.0


From 7a0a48ea28e3a402fb032c1f278fe3f2a1469f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:10 +0000
Subject: [PATCH 30/47] fix: a message of a queue name that Redis does not
 accept must not be stored

It could never be delivered, and every recovery would fail on it forever.
---
 internal/queue/cache/redis_cache.go |  5 +++++
 internal/queue/queue.go             | 15 +++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/internal/queue/cache/redis_cache.go b/internal/queue/cache/redis_cache.go
index ab6e66a..ae24a1f 100644
--- a/internal/queue/cache/redis_cache.go
+++ b/internal/queue/cache/redis_cache.go
@@ -893,6 +893,11 @@ func (cache *RedisCache) generalCacheKey(key string) string {
 	return fmt.Sprint(cache.fullPrefix(), ":{", key, "}")
 }
 
+// ValidateQueueName returns an error if the cache can not hold messages of the queue.
+func (cache *RedisCache) ValidateQueueName(queue string) error {
+	return cache.validateQueueName(queue)
+}
+
 func (cache *RedisCache) validateQueueName(queue string) error {
 	// Braces are reserved even in standalone mode so existing queues remain
 	// migratable to Redis Cluster without ambiguous hash-tag parsing.
diff --git a/internal/queue/queue.go b/internal/queue/queue.go
index 4198d29..dd64998 100644
--- a/internal/queue/queue.go
+++ b/internal/queue/queue.go
@@ -90,8 +90,14 @@ func (pool *Queue) GetStorageMessages(ctx context.Context, opt *storage.FindOpti
 	return result, nil
 }
 
+// queueNameValidator is implemented by caches that do not accept every queue name
+type queueNameValidator interface {
+	ValidateQueueName(queue string) error
+}
+
 func (pool *Queue) AddMessagesToStorage(ctx context.Context, messages ...*message.Message) (inserted int64, updated int64, err error) {
 	queues := make(map[string]bool)
+	validator, validate := pool.cache.(queueNameValidator)
 
 	for i := range messages {
 		message := messages[i]
@@ -103,6 +109,15 @@ func (pool *Queue) AddMessagesToStorage(ctx context.Context, messages ...*messag
 		}
 
 		queues[queueName] = true
+
+		// Stored messages the cache can never accept would make every recovery fail
+		if validate {
+			if err := validator.ValidateQueueName(queueName); err != nil {
+				logger.S(ctx).Error("Error inserting storage data: ", err)
+
+				return 0, 0, err
+			}
+		}
 	}
 
 	insertions, updates, err := pool.storage.Insert(ctx, messages...)
-- 
2.43.0


From 06b0ea5639e7dc5c918469b47ae64ec88206096a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:35 +0000
Subject: [PATCH 31/47] fix: queues named like a pool suffix must be listed

---
 internal/queue/cache/redis_cache.go | 34 -----------------------------
 1 file changed, 34 deletions(-)

diff --git a/internal/queue/cache/redis_cache.go b/internal/queue/cache/redis_cache.go
index ae24a1f..76ca7f5 100644
--- a/internal/queue/cache/redis_cache.go
+++ b/internal/queue/cache/redis_cache.go
@@ -435,10 +435,6 @@ func (cache *RedisCache) ListQueues(ctx context.Context, pattern string, poolTyp
 		data[i] = cache.parseQueueKey(queue, regex)
 	}
 
-	if pool.PRIMARY_POOL == poolType {
-		return filterQueueSuffix(uniqStrings(data)), nil
-	}
-
 	return uniqStrings(data), nil
 }
 
@@ -550,36 +546,6 @@ func unwrapClusterHashTag(queue string) string {
 	return queue[1 : len(queue)-1]
 }
 
-func filterQueueSuffix(data []string) []string {
-	result := make([]string, 0, len(data))
-
-	for i := range data {
-		if strings.HasSuffix(data[i], PROCESSING_POOL_SUFFIX) {
-			continue
-		}
-
-		if strings.HasSuffix(data[i], LOCK_ACK_SUFFIX) {
-			continue
-		}
-
-		if strings.HasSuffix(data[i], LOCK_NACK_SUFFIX) {
-			continue
-		}
-
-		if strings.HasSuffix(data[i], LOCK_NACK_SCORE_SUFFIX) {
-			continue
-		}
-
-		if strings.HasSuffix(data[i], LOCK_ACK_SCORE_SUFFIX) {
-			continue
-		}
-
-		result = append(result, data[i])
-	}
-
-	return result
-}
-
 func (cache *RedisCache) MakeAvailable(ctx context.Context, message *message.Message) (bool, error) {
 	if message.Queue == "" {
 		return false, errors.New("invalid message queue")
-- 
2.43.0


From 134be5c740510a4ed9bdcf9adad3a85a8ffc977a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:45 +0000
Subject: [PATCH 32/47] fix: glob characters in the cache key prefix must match
 only themselves

---
 internal/queue/cache/redis_cache.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/queue/cache/redis_cache.go b/internal/queue/cache/redis_cache.go
index 76ca7f5..c49cd7e 100644
--- a/internal/queue/cache/redis_cache.go
+++ b/internal/queue/cache/redis_cache.go
@@ -281,7 +281,7 @@ func (cache *RedisCache) Flush(ctx context.Context) {
 		metrics.CacheLatency.Record(ctx, dtime.ElapsedTime(now), metric.WithAttributes(attribute.String("op", "flush")))
 	}()
 
-	pattern := cache.fullPrefix() + ":*"
+	pattern := escapeGlob(cache.fullPrefix()) + ":*"
 
 	// Delete only this Deckard instance namespace. Never call FLUSHDB, since users may share
 	// the same Redis with other applications (or another Deckard with a different prefix).
@@ -378,6 +378,9 @@ func (cache *RedisCache) ListQueues(ctx context.Context, pattern string, poolTyp
 		searchPattern = cache.lockPool(pattern, LOCK_NACK)
 	}
 
+	// only the queue is a pattern: the configured prefix is to be matched literally
+	searchPattern = escapeGlob(cache.poolPrefix()) + strings.TrimPrefix(searchPattern, cache.poolPrefix())
+
 	// Use SCAN instead of KEYS to avoid blocking Redis.
 	//
 	// SCAN is a "keyless" command, so in cluster mode go-redis cannot route it by hash slot: it
@@ -465,6 +468,11 @@ func scanKeys(ctx context.Context, client redis.Cmdable, pattern string) ([]stri
 	return keys, nil
 }
 
+// escapeGlob returns a Redis glob-style pattern that matches exactly the value.
+func escapeGlob(value string) string {
+	return strings.NewReplacer(`\`, `\\`, `*`, `\*`, `?`, `\?`, `[`, `\[`, `]`, `\]`).Replace(value)
+}
+
 func deleteByPattern(ctx context.Context, client redis.Cmdable, pattern string) error {
 	keysToDelete := make([]string, 0)
 	cursor := uint64(0)
-- 
2.43.0


From b7ba587c68c0027e03fa830cf8da2769b82549ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:47 +0000
Subject: [PATCH 33/47] fix: configured histogram buckets must be used

---
 internal/metrics/metrics.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/metrics/metrics.go b/internal/metrics/metrics.go
index 941fd63..e68241b 100644
--- a/internal/metrics/metrics.go
+++ b/internal/metrics/metrics.go
@@ -73,6 +73,9 @@ func panicInstrumentationError(err error) {
 }
 
 func init() {
+	// The histogram buckets are read while creating the metrics
+	config.Configure()
+
 	registry = NewWrappedRegistry(prometheusclient.NewRegistry(), createDefaultMetrics()...)
 
 	var err error
-- 
2.43.0


From ba93ef42e8eacaf5a1c83d3fd17ee9484471e914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:32 +0000
Subject: [PATCH 34/47] fix: handle termination signals before the first
 request can be accepted

---
 internal/cmd/deckard/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/cmd/deckard/main.go b/internal/cmd/deckard/main.go
index dde6b5c..4fe0b8f 100644
--- a/internal/cmd/deckard/main.go
+++ b/internal/cmd/deckard/main.go
@@ -92,6 +92,9 @@ func main() {
 
 	queue := queue.NewQueue(auditor, dataStorage, configurationService, dataCache)
 
+	// Handle sigterm before any request can be accepted
+	signal.Notify(shutdown.CancelChan, os.Interrupt, syscall.SIGTERM, syscall.SIGQUIT, syscall.SIGINT)
+
 	if config.GrpcEnabled.GetBool() {
 		server = startGrpcServer(queue, configurationService)
 	}
@@ -100,9 +103,6 @@ func main() {
 		startHouseKeeperJobs(queue)
 	}
 
-	// Handle sigterm and await termChan signal
-	signal.Notify(shutdown.CancelChan, os.Interrupt, syscall.SIGTERM, syscall.SIGQUIT, syscall.SIGINT)
-
 	// Blocks here until interrupted
 	<-shutdown.CancelChan
 
-- 
2.43.0


From 58ef38d4057c048c33e3be53580fe25c421a100a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:21 +0000
Subject: [PATCH 35/47] fix: shutdown must not wait forever for open streams

---
 internal/shutdown/shutdown.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/internal/shutdown/shutdown.go b/internal/shutdown/shutdown.go
index e968499..61761c0 100644
--- a/internal/shutdown/shutdown.go
+++ b/internal/shutdown/shutdown.go
@@ -4,12 +4,16 @@ import (
 	"context"
 	"os"
 	"sync"
+	"time"
 
 	"github.com/takenet/deckard/internal/logger"
 	"github.com/takenet/deckard/internal/trace"
 	"google.golang.org/grpc"
 )
 
+// Time to wait for calls in progress before closing the remaining connections
+const gracePeriod = 20 * time.Second
+
 // It will be closed when shutdown starts the shutting down process
 var Started chan struct{}
 
@@ -42,7 +46,7 @@ func PerformShutdown(ctx context.Context, cancel context.CancelFunc, server *grp
 
 	if server != nil {
 		// Graceful shutdown gRPC server
-		server.GracefulStop()
+		stopServer(server)
 	}
 
 	// Wait for critical wait group to finish
@@ -61,6 +65,25 @@ func PerformShutdown(ctx context.Context, cancel context.CancelFunc, server *grp
 	logger.S(ctx).Info("Shutdown finished.")
 }
 
+// stopServer waits for the calls in progress. Streams (health watches, reflection) last until the client ends them,
+// so whatever is still open after the grace period is closed.
+func stopServer(server *grpc.Server) {
+	stopped := make(chan struct{})
+
+	go func() {
+		server.GracefulStop()
+		close(stopped)
+	}()
+
+	select {
+	case <-stopped:
+	case <-time.After(gracePeriod):
+		server.Stop()
+
+		<-stopped
+	}
+}
+
 // It will return true if the application is shutting down or if the application has finished the shutting down process
 func Ongoing() bool {
 	select {
-- 
2.43.0


From 3797179c8b70c5db1c5d5dd7db1206d0a8f48c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:58 +0000
Subject: [PATCH 36/47] fix: a certificate without key file paths must not fall
 back to plaintext

---
 internal/service/deckard_service.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/service/deckard_service.go b/internal/service/deckard_service.go
index 38bbb19..d05e32a 100644
--- a/internal/service/deckard_service.go
+++ b/internal/service/deckard_service.go
@@ -140,7 +140,8 @@ func loadTLSCredentials() (credentials.TransportCredentials, error) {
 	certPath := config.TlsServerCertFilePaths.Get()
 	keyPath := config.TlsServerKeyFilePaths.Get()
 
-	if certPath == "" || keyPath == "" {
+	// Only one of them is an error reported below: the service must not fall back to plaintext
+	if certPath == "" && keyPath == "" {
 		return nil, nil
 	}
 
-- 
2.43.0


From c6eebd80619d8d28580f02668dc364e07e32b1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:10 +0000
Subject: [PATCH 37/47] fix: a resource attribute must not repeat a metric
 label

---
 internal/metrics/metrics.go | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/internal/metrics/metrics.go b/internal/metrics/metrics.go
index e68241b..bc44bcf 100644
--- a/internal/metrics/metrics.go
+++ b/internal/metrics/metrics.go
@@ -148,6 +148,24 @@ func createDefaultMetrics() []*dto.LabelPair {
 		otelAttributes = otelAttributes + "service.version=" + project.Version
 	}
 
+	// A label must not be repeated, otherwise the metrics can not be scraped
+	setLabel := func(name string, value string) {
+		for _, label := range result {
+			if label.GetName() == name {
+				label.Value = strPtr(value)
+
+				return
+			}
+		}
+
+		result = append(result, &dto.LabelPair{
+			Name:  strPtr(name),
+			Value: strPtr(value),
+		})
+	}
+
+	setLabel("service_name", project.Name)
+
 	attributes := strings.Split(otelAttributes, ",")
 	for _, attribute := range attributes {
 		parts := strings.Split(attribute, "=")
@@ -156,22 +174,13 @@ func createDefaultMetrics() []*dto.LabelPair {
 			continue
 		}
 
-		result = append(result, &dto.LabelPair{
-			Name:  strPtr(strings.Replace(parts[0], ".", "_", -1)),
-			Value: strPtr(parts[1]),
-		})
+		setLabel(strings.Replace(parts[0], ".", "_", -1), parts[1])
 	}
 
-	otelServiceName := os.Getenv("OTEL_SERVICE_NAME")
-	if otelServiceName == "" {
-		otelServiceName = project.Name
+	if otelServiceName := os.Getenv("OTEL_SERVICE_NAME"); otelServiceName != "" {
+		setLabel("service_name", otelServiceName)
 	}
 
-	result = append(result, &dto.LabelPair{
-		Name:  strPtr("service_name"),
-		Value: strPtr(otelServiceName),
-	})
-
 	return result
 }
 
-- 
2.43.0


From bd1ff75e24a2b4f9fe59d1b565d148dcfca74376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:16 +0000
Subject: [PATCH 38/47] fix: a lagging secondary must not make a pull drop
 existing messages

---
 internal/queue/storage/mongo_storage.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/queue/storage/mongo_storage.go b/internal/queue/storage/mongo_storage.go
index c115add..285cf25 100644
--- a/internal/queue/storage/mongo_storage.go
+++ b/internal/queue/storage/mongo_storage.go
@@ -73,7 +73,8 @@ func NewMongoStorage(ctx context.Context) (*MongoStorage, error) {
 		return nil, err
 	}
 
-	mongoPrimaryOptions.SetReadPreference(readpref.PrimaryPreferred())
+	// These reads decide whether a message exists, which a secondary that lags behind cannot tell
+	mongoPrimaryOptions.SetReadPreference(readpref.Primary())
 	clientPrimaryPreference, err := waitForClient(ctx, mongoPrimaryOptions)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 690069c635b4ac7db0f2a71cbd8a6bb1138bba91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:26 +0000
Subject: [PATCH 39/47] fix: read queue configurations from the primary, so
 that an edit is seen by the reads after it

---
 internal/queue/storage/mongo_storage.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/queue/storage/mongo_storage.go b/internal/queue/storage/mongo_storage.go
index 285cf25..eacdb7d 100644
--- a/internal/queue/storage/mongo_storage.go
+++ b/internal/queue/storage/mongo_storage.go
@@ -91,7 +91,8 @@ func NewMongoStorage(ctx context.Context) (*MongoStorage, error) {
 		clientPrimaryPreference:       clientPrimaryPreference,
 		messagesCollection:            clientSecondaryPreference.Database(database).Collection(queueCollection),
 		messagesCollectionPrimaryRead: clientPrimaryPreference.Database(database).Collection(queueCollection),
-		queueConfigurationCollection:  clientSecondaryPreference.Database(database).Collection(queueConfigurationCollection),
+		// An edit must be seen by the reads that follow it, which a secondary that lags behind cannot assure
+		queueConfigurationCollection: clientPrimaryPreference.Database(database).Collection(queueConfigurationCollection),
 	}, nil
 }
 
-- 
2.43.0


From 13e8f4e57fe0eb6bc1c9d6d07e0e6072fc1faa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:59 +0000
Subject: [PATCH 40/47] fix: helm chart never passed the storage.mongodb names
 on

---
 helm/templates/deployment.yaml             | 6 ++++++
 helm/templates/housekeeper-deployment.yaml | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/helm/templates/deployment.yaml b/helm/templates/deployment.yaml
index 10b8228..4040816 100644
--- a/helm/templates/deployment.yaml
+++ b/helm/templates/deployment.yaml
@@ -33,6 +33,12 @@ spec:
           image: "{{ .Values.image.repository }}:{{ .Values.image.tag | default .Chart.AppVersion }}"
           imagePullPolicy: {{ .Values.image.pullPolicy }}
           env:
+            - name: DECKARD_MONGODB_DATABASE
+              value: {{ quote .Values.storage.mongodb.database }}
+            - name: DECKARD_MONGODB_COLLECTION
+              value: {{ quote .Values.storage.mongodb.collection }}
+            - name: DECKARD_MONGODB_QUEUE_CONFIGURATION_COLLECTION
+              value: {{ quote .Values.storage.mongodb.queue_configuration_collection }}
             {{- range $name, $item := .Values.env }}
             - name: {{ $name }}
               {{- $item | toYaml | nindent 14 }}
diff --git a/helm/templates/housekeeper-deployment.yaml b/helm/templates/housekeeper-deployment.yaml
index beaa03a..c0344ec 100644
--- a/helm/templates/housekeeper-deployment.yaml
+++ b/helm/templates/housekeeper-deployment.yaml
@@ -32,6 +32,12 @@ spec:
           image: "{{ .Values.image.repository }}:{{ .Values.image.tag | default .Chart.AppVersion }}"
           imagePullPolicy: {{ .Values.housekeeper.image.pullPolicy }}
           env:
+            - name: DECKARD_MONGODB_DATABASE
+              value: {{ quote .Values.storage.mongodb.database }}
+            - name: DECKARD_MONGODB_COLLECTION
+              value: {{ quote .Values.storage.mongodb.collection }}
+            - name: DECKARD_MONGODB_QUEUE_CONFIGURATION_COLLECTION
+              value: {{ quote .Values.storage.mongodb.queue_configuration_collection }}
             {{- range $name, $item := .Values.housekeeper.env }}
             - name: {{ $name }}
               {{- $item | toYaml | nindent 14 }}
-- 
2.43.0


From 872946c6aeff05cf122b493d0643726b488663ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:59 +0000
Subject: [PATCH 41/47] fix: helm chart ignored the image of the housekeeper

---
 helm/README.md                             | 4 ++--
 helm/templates/housekeeper-deployment.yaml | 2 +-
 helm/values.yaml                           | 5 +++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/helm/README.md b/helm/README.md
index ee0c129..44296a0 100644
--- a/helm/README.md
+++ b/helm/README.md
@@ -95,9 +95,9 @@ Check the [values.yaml](https://github.com/takenet/deckard/blob/main/helm/values
 | -------------------------------- | ------------------------------------------------------------------- | ---------------- |
 | `housekeeper.self.enabled`       | Enable housekeeper task in the same pod as the Deckard gRPC service | `false`          |
 | `housekeeper.enabled`            | Deploy a separate housekeeper deployment                            | `true`           |
-| `housekeeper.image.repository`   | Housekeeper image repository                                        | `blipai/deckard` |
+| `housekeeper.image.repository`   | Housekeeper image repository (overrides image.repository)           | `""`             |
 | `housekeeper.image.pullPolicy`   | Housekeeper image pull policy                                       | `IfNotPresent`   |
-| `housekeeper.image.tag`          | Housekeeper image tag (overrides appVersion)                        | `""`             |
+| `housekeeper.image.tag`          | Housekeeper image tag (overrides image.tag and appVersion)          | `""`             |
 | `housekeeper.replicaCount`       | Number of replicas for the housekeeper deployment                   | `1`              |
 | `housekeeper.labels`             | Additional labels for the housekeeper deployment                    | `{}`             |
 | `housekeeper.podAnnotations`     | Additional pod annotations for the housekeeper deployment           | `{}`             |
diff --git a/helm/templates/housekeeper-deployment.yaml b/helm/templates/housekeeper-deployment.yaml
index c0344ec..b6e8f31 100644
--- a/helm/templates/housekeeper-deployment.yaml
+++ b/helm/templates/housekeeper-deployment.yaml
@@ -29,7 +29,7 @@ spec:
         - name: {{ .Chart.Name }}-housekeeper
           securityContext:
             {{- toYaml .Values.housekeeper.securityContext | nindent 12 }}
-          image: "{{ .Values.image.repository }}:{{ .Values.image.tag | default .Chart.AppVersion }}"
+          image: "{{ .Values.housekeeper.image.repository | default .Values.image.repository }}:{{ .Values.housekeeper.image.tag | default .Values.image.tag | default .Chart.AppVersion }}"
           imagePullPolicy: {{ .Values.housekeeper.image.pullPolicy }}
           env:
             - name: DECKARD_MONGODB_DATABASE
diff --git a/helm/values.yaml b/helm/values.yaml
index 30d6fe1..9562788 100644
--- a/helm/values.yaml
+++ b/helm/values.yaml
@@ -184,9 +184,10 @@ housekeeper:
   enabled: true
 
   image:
-    repository: blipai/deckard
+    # Overrides the image repository whose default is image.repository.
+    repository: ""
     pullPolicy: IfNotPresent
-    # Overrides the image tag whose default is the chart appVersion.
+    # Overrides the image tag whose default is image.tag and then the chart appVersion.
     tag: ""
 
   # The number of replicas for the housekeeper deployment
-- 
2.43.0


From f329e59f019918fc2ac61218393454f80d2cf178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:59 +0000
Subject: [PATCH 42/47] fix: helm chart put user names and passwords into URIs
 unescaped

---
 helm/templates/_helpers.tpl | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/helm/templates/_helpers.tpl b/helm/templates/_helpers.tpl
index 96234cc..7015d49 100644
--- a/helm/templates/_helpers.tpl
+++ b/helm/templates/_helpers.tpl
@@ -118,6 +118,13 @@ MongoDB subchart fullname
 {{- include "deckard.dependency.fullname" (dict "chartName" "mongodb" "chartValues" .Values.mongodb "context" .) -}}
 {{- end }}
 
+{{/*
+Escapes a user name or password to be part of a URI
+*/}}
+{{- define "deckard.uriEscape" -}}
+{{- toString . | urlquery | replace "+" "%20" -}}
+{{- end }}
+
 {{/*
 Define Cache URI
 */}}
@@ -126,9 +133,9 @@ Define Cache URI
 {{- if .Values.redis.enabled }}
 {{- $redisDatabase := toString (default 0 .Values.cache.redis.database) -}}
 {{- if eq .Values.redis.architecture "standalone" }}
-{{- printf "redis://:%s@%s-master.%s.svc:%s/%s" .Values.redis.auth.password (include "deckard.redis.fullname" .) .Release.Namespace (toString .Values.redis.service.ports.redis) $redisDatabase }}
+{{- printf "redis://:%s@%s-master.%s.svc:%s/%s" (include "deckard.uriEscape" .Values.redis.auth.password) (include "deckard.redis.fullname" .) .Release.Namespace (toString .Values.redis.service.ports.redis) $redisDatabase }}
 {{- else }}
-{{- printf "redis://:%s@%s-headless.%s.svc:%s/%s" .Values.redis.auth.password (include "deckard.redis.fullname" .) .Release.Namespace (toString .Values.redis.service.ports.redis) $redisDatabase }}
+{{- printf "redis://:%s@%s-headless.%s.svc:%s/%s" (include "deckard.uriEscape" .Values.redis.auth.password) (include "deckard.redis.fullname" .) .Release.Namespace (toString .Values.redis.service.ports.redis) $redisDatabase }}
 {{- end }}
 {{- end }}
 {{- end }}
@@ -285,9 +292,9 @@ Define Storage URI
 {{- if eq .Values.storage.type "MONGODB" }}
 {{- if .Values.mongodb.enabled }}
 {{- if eq .Values.mongodb.architecture "standalone" }}
-{{- printf "mongodb://%s:%s@%s.%s.svc:%s/admin?ssl=false" .Values.mongodb.auth.rootUser .Values.mongodb.auth.rootPassword (include "deckard.mongodb.fullname" .) .Release.Namespace (toString .Values.mongodb.service.ports.mongodb) }}
+{{- printf "mongodb://%s:%s@%s.%s.svc:%s/admin?ssl=false" (include "deckard.uriEscape" .Values.mongodb.auth.rootUser) (include "deckard.uriEscape" .Values.mongodb.auth.rootPassword) (include "deckard.mongodb.fullname" .) .Release.Namespace (toString .Values.mongodb.service.ports.mongodb) }}
 {{- else }}
-{{- printf "mongodb://%s:%s@%s-headless.%s.svc:%s/admin?ssl=false" .Values.mongodb.auth.rootUser .Values.mongodb.auth.rootPassword (include "deckard.mongodb.fullname" .) .Release.Namespace (toString .Values.mongodb.service.ports.mongodb) }}
+{{- printf "mongodb://%s:%s@%s-headless.%s.svc:%s/admin?ssl=false" (include "deckard.uriEscape" .Values.mongodb.auth.rootUser) (include "deckard.uriEscape" .Values.mongodb.auth.rootPassword) (include "deckard.mongodb.fullname" .) .Release.Namespace (toString .Values.mongodb.service.ports.mongodb) }}
 {{- end }}
 {{- end }}
 {{- end }}
-- 
2.43.0


From 785a880c4a6c271c3f71a6b6bbab0566372b0d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:59 +0000
Subject: [PATCH 43/47] fix: helm chart logged in to a MongoDB without
 authentication

---
 helm/templates/_helpers.tpl | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/helm/templates/_helpers.tpl b/helm/templates/_helpers.tpl
index 7015d49..daa33c0 100644
--- a/helm/templates/_helpers.tpl
+++ b/helm/templates/_helpers.tpl
@@ -291,10 +291,14 @@ Define Storage URI
 {{- define "deckard.storage.uri" -}}
 {{- if eq .Values.storage.type "MONGODB" }}
 {{- if .Values.mongodb.enabled }}
+{{- $userInfo := "" -}}
+{{- if .Values.mongodb.auth.enabled -}}
+{{- $userInfo = printf "%s:%s@" (include "deckard.uriEscape" .Values.mongodb.auth.rootUser) (include "deckard.uriEscape" .Values.mongodb.auth.rootPassword) -}}
+{{- end -}}
 {{- if eq .Values.mongodb.architecture "standalone" }}
-{{- printf "mongodb://%s:%s@%s.%s.svc:%s/admin?ssl=false" (include "deckard.uriEscape" .Values.mongodb.auth.rootUser) (include "deckard.uriEscape" .Values.mongodb.auth.rootPassword) (include "deckard.mongodb.fullname" .) .Release.Namespace (toString .Values.mongodb.service.ports.mongodb) }}
+{{- printf "mongodb://%s%s.%s.svc:%s/admin?ssl=false" $userInfo (include "deckard.mongodb.fullname" .) .Release.Namespace (toString .Values.mongodb.service.ports.mongodb) }}
 {{- else }}
-{{- printf "mongodb://%s:%s@%s-headless.%s.svc:%s/admin?ssl=false" (include "deckard.uriEscape" .Values.mongodb.auth.rootUser) (include "deckard.uriEscape" .Values.mongodb.auth.rootPassword) (include "deckard.mongodb.fullname" .) .Release.Namespace (toString .Values.mongodb.service.ports.mongodb) }}
+{{- printf "mongodb://%s%s-headless.%s.svc:%s/admin?ssl=false" $userInfo (include "deckard.mongodb.fullname" .) .Release.Namespace (toString .Values.mongodb.service.ports.mongodb) }}
 {{- end }}
 {{- end }}
 {{- end }}
-- 
2.43.0


From 8eba41ac4eb70519bcdb9f380288664561f57357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:59 +0000
Subject: [PATCH 44/47] fix: helm chart labelled the housekeeper of long
 release names with more than 63 characters

---
 helm/templates/_helpers.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helm/templates/_helpers.tpl b/helm/templates/_helpers.tpl
index daa33c0..bbe618d 100644
--- a/helm/templates/_helpers.tpl
+++ b/helm/templates/_helpers.tpl
@@ -65,7 +65,7 @@ Housekeeper selector labels
 */}}
 {{- define "deckard.housekeeper.selectorLabels" -}}
 app.kubernetes.io/name: {{ include "deckard.name" . }}
-app.kubernetes.io/instance: {{ .Release.Name }}-housekeeper
+app.kubernetes.io/instance: {{ printf "%s-housekeeper" .Release.Name | trunc 63 | trimSuffix "-" }}
 {{- end }}
 
 {{/*
-- 
2.43.0


From 6ba56d5a3f10fccfea32086f87a8d37aab9be642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:20 +0000
Subject: [PATCH 45/47] fix: name the series of the Code Usage panel by their
 type

---
 dashboards/grafana.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashboards/grafana.json b/dashboards/grafana.json
index 5149760..5c5783c 100644
--- a/dashboards/grafana.json
+++ b/dashboards/grafana.json
@@ -2256,7 +2256,7 @@
               "format": "time_series",
               "interval": "$res",
               "intervalFactor": 1,
-              "legendFormat": "{{queue}}",
+              "legendFormat": "{{type}}",
               "range": true,
               "refId": "A"
             }
-- 
2.43.0


From 0d965639472ff2023cfb893b9939a160fa7c3d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:40 +0000
Subject: [PATCH 46/47] fix: count cache accesses once in the Grafana dashboard

The panel summed the cumulative buckets of the latency histogram, which
counts every access once for each bucket it falls into.
---
 dashboards/grafana.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashboards/grafana.json b/dashboards/grafana.json
index 5c5783c..ad4ea19 100644
--- a/dashboards/grafana.json
+++ b/dashboards/grafana.json
@@ -246,7 +246,7 @@
                 "uid": "${DS_PROMETHEUS}"
               },
               "exemplar": true,
-              "expr": "sum(increase(deckard_cache_latency_bucket{app_kubernetes_io_name=~\"$service_name\"}[$res])) by (op)",
+              "expr": "sum(increase(deckard_cache_latency_count{app_kubernetes_io_name=~\"$service_name\"}[$res])) by (op)",
               "format": "time_series",
               "interval": "$res",
               "intervalFactor": 1,
-- 
2.43.0


From 64876dcd2e5975a605cc839a781ff218bef5156a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:54 +0000
Subject: [PATCH 47/47] fix: let the Kibana dashboard find the audit index

The audit is written to the index "deckard", which the index pattern
"deckard-*" does not cover. "deckard*" covers it, and indices behind an
alias of that name as before.
---
 dashboards/kibana.ndjson | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashboards/kibana.ndjson b/dashboards/kibana.ndjson
index 39f05e2..bd7816a 100644
--- a/dashboards/kibana.ndjson
+++ b/dashboards/kibana.ndjson
@@ -1,4 +1,4 @@
-{"attributes":{"fields":"[{\"name\":\"QueryResult\",\"type\":\"string\",\"esTypes\":[\"text\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":false,\"readFromDocValues\":false},{\"name\":\"QueryResult.keyword\",\"type\":\"string\",\"esTypes\":[\"keyword\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":true,\"readFromDocValues\":true,\"subType\":{\"multi\":{\"parent\":\"QueryResult\"}}},{\"name\":\"_id\",\"type\":\"string\",\"esTypes\":[\"_id\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":true,\"readFromDocValues\":false},{\"name\":\"_index\",\"type\":\"string\",\"esTypes\":[\"_index\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":true,\"readFromDocValues\":false},{\"name\":\"_score\",\"type\":\"number\",\"count\":0,\"scripted\":false,\"searchable\":false,\"aggregatable\":false,\"readFromDocValues\":false},{\"name\":\"_source\",\"type\":\"_source\",\"esTypes\":[\"_source\"],\"count\":0,\"scripted\":false,\"searchable\":false,\"aggregatable\":false,\"readFromDocValues\":false},{\"name\":\"_type\",\"type\":\"string\",\"esTypes\":[\"_type\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":true,\"readFromDocValues\":false},{\"name\":\"breakpoint\",\"type\":\"string\",\"esTypes\":[\"text\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":false,\"readFromDocValues\":false},{\"name\":\"breakpoint.keyword\",\"type\":\"string\",\"esTypes\":[\"keyword\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":true,\"readFromDocValues\":true,\"subType\":{\"multi\":{\"parent\":\"breakpoint\"}}},{\"name\":\"crawler_host\",\"type\":\"string\",\"esTypes\":[\"text\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":false,\"readFromDocValues\":false},{\"name\":\"crawler_host.keyword\",\"type\":\"string\",\"esTypes\":[\"keyword\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":true,\"readFromDocValues\":true,\"subType\":{\"multi\":{\"parent\":\"crawler_host\"}}},{\"name\":\"id\",\"type\":\"string\",\"esTypes\":[\"text\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":false,\"readFromDocValues\":false},{\"name\":\"id.keyword\",\"type\":\"string\",\"esTypes\":[\"keyword\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":true,\"readFromDocValues\":true,\"subType\":{\"multi\":{\"parent\":\"id\"}}},{\"name\":\"last_score_subtract\",\"type\":\"number\",\"esTypes\":[\"float\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":true,\"readFromDocValues\":true},{\"name\":\"query_result\",\"type\":\"string\",\"esTypes\":[\"text\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":false,\"readFromDocValues\":false},{\"name\":\"query_result.keyword\",\"type\":\"string\",\"esTypes\":[\"keyword\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":true,\"readFromDocValues\":true,\"subType\":{\"multi\":{\"parent\":\"query_result\"}}},{\"name\":\"queue\",\"type\":\"string\",\"esTypes\":[\"text\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":false,\"readFromDocValues\":false},{\"name\":\"queue.keyword\",\"type\":\"string\",\"esTypes\":[\"keyword\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":true,\"readFromDocValues\":true,\"subType\":{\"multi\":{\"parent\":\"queue\"}}},{\"name\":\"queue_prefix\",\"type\":\"string\",\"esTypes\":[\"text\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":false,\"readFromDocValues\":false},{\"name\":\"queue_prefix.keyword\",\"type\":\"string\",\"esTypes\":[\"keyword\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":true,\"readFromDocValues\":true,\"subType\":{\"multi\":{\"parent\":\"queue_prefix\"}}},{\"name\":\"queue_suffix\",\"type\":\"string\",\"esTypes\":[\"text\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":false,\"readFromDocValues\":false},{\"name\":\"queue_suffix.keyword\",\"type\":\"string\",\"esTypes\":[\"keyword\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":true,\"readFromDocValues\":true,\"subType\":{\"multi\":{\"parent\":\"queue_suffix\"}}},{\"name\":\"reason\",\"type\":\"string\",\"esTypes\":[\"text\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":false,\"readFromDocValues\":false},{\"name\":\"reason.keyword\",\"type\":\"string\",\"esTypes\":[\"keyword\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":true,\"readFromDocValues\":true,\"subType\":{\"multi\":{\"parent\":\"reason\"}}},{\"name\":\"signal\",\"type\":\"string\",\"esTypes\":[\"text\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":false,\"readFromDocValues\":false},{\"name\":\"signal.keyword\",\"type\":\"string\",\"esTypes\":[\"keyword\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":true,\"readFromDocValues\":true,\"subType\":{\"multi\":{\"parent\":\"signal\"}}},{\"name\":\"timestamp\",\"type\":\"date\",\"esTypes\":[\"date\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":true,\"readFromDocValues\":true}]","timeFieldName":"timestamp","title":"deckard-*"},"coreMigrationVersion":"7.16.2","id":"0bbf2a82-11c3-4507-b7d5-6b8a5ceb12f7","migrationVersion":{"index-pattern":"7.11.0"},"references":[],"type":"index-pattern","updated_at":"2022-01-17T21:20:39.936Z","version":"WzI3NDYyLDRd"}
+{"attributes":{"fields":"[{\"name\":\"QueryResult\",\"type\":\"string\",\"esTypes\":[\"text\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":false,\"readFromDocValues\":false},{\"name\":\"QueryResult.keyword\",\"type\":\"string\",\"esTypes\":[\"keyword\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":true,\"readFromDocValues\":true,\"subType\":{\"multi\":{\"parent\":\"QueryResult\"}}},{\"name\":\"_id\",\"type\":\"string\",\"esTypes\":[\"_id\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":true,\"readFromDocValues\":false},{\"name\":\"_index\",\"type\":\"string\",\"esTypes\":[\"_index\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":true,\"readFromDocValues\":false},{\"name\":\"_score\",\"type\":\"number\",\"count\":0,\"scripted\":false,\"searchable\":false,\"aggregatable\":false,\"readFromDocValues\":false},{\"name\":\"_source\",\"type\":\"_source\",\"esTypes\":[\"_source\"],\"count\":0,\"scripted\":false,\"searchable\":false,\"aggregatable\":false,\"readFromDocValues\":false},{\"name\":\"_type\",\"type\":\"string\",\"esTypes\":[\"_type\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":true,\"readFromDocValues\":false},{\"name\":\"breakpoint\",\"type\":\"string\",\"esTypes\":[\"text\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":false,\"readFromDocValues\":false},{\"name\":\"breakpoint.keyword\",\"type\":\"string\",\"esTypes\":[\"keyword\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":true,\"readFromDocValues\":true,\"subType\":{\"multi\":{\"parent\":\"breakpoint\"}}},{\"name\":\"crawler_host\",\"type\":\"string\",\"esTypes\":[\"text\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":false,\"readFromDocValues\":false},{\"name\":\"crawler_host.keyword\",\"type\":\"string\",\"esTypes\":[\"keyword\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":true,\"readFromDocValues\":true,\"subType\":{\"multi\":{\"parent\":\"crawler_host\"}}},{\"name\":\"id\",\"type\":\"string\",\"esTypes\":[\"text\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":false,\"readFromDocValues\":false},{\"name\":\"id.keyword\",\"type\":\"string\",\"esTypes\":[\"keyword\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":true,\"readFromDocValues\":true,\"subType\":{\"multi\":{\"parent\":\"id\"}}},{\"name\":\"last_score_subtract\",\"type\":\"number\",\"esTypes\":[\"float\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":true,\"readFromDocValues\":true},{\"name\":\"query_result\",\"type\":\"string\",\"esTypes\":[\"text\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":false,\"readFromDocValues\":false},{\"name\":\"query_result.keyword\",\"type\":\"string\",\"esTypes\":[\"keyword\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":true,\"readFromDocValues\":true,\"subType\":{\"multi\":{\"parent\":\"query_result\"}}},{\"name\":\"queue\",\"type\":\"string\",\"esTypes\":[\"text\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":false,\"readFromDocValues\":false},{\"name\":\"queue.keyword\",\"type\":\"string\",\"esTypes\":[\"keyword\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":true,\"readFromDocValues\":true,\"subType\":{\"multi\":{\"parent\":\"queue\"}}},{\"name\":\"queue_prefix\",\"type\":\"string\",\"esTypes\":[\"text\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":false,\"readFromDocValues\":false},{\"name\":\"queue_prefix.keyword\",\"type\":\"string\",\"esTypes\":[\"keyword\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":true,\"readFromDocValues\":true,\"subType\":{\"multi\":{\"parent\":\"queue_prefix\"}}},{\"name\":\"queue_suffix\",\"type\":\"string\",\"esTypes\":[\"text\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":false,\"readFromDocValues\":false},{\"name\":\"queue_suffix.keyword\",\"type\":\"string\",\"esTypes\":[\"keyword\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":true,\"readFromDocValues\":true,\"subType\":{\"multi\":{\"parent\":\"queue_suffix\"}}},{\"name\":\"reason\",\"type\":\"string\",\"esTypes\":[\"text\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":false,\"readFromDocValues\":false},{\"name\":\"reason.keyword\",\"type\":\"string\",\"esTypes\":[\"keyword\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":true,\"readFromDocValues\":true,\"subType\":{\"multi\":{\"parent\":\"reason\"}}},{\"name\":\"signal\",\"type\":\"string\",\"esTypes\":[\"text\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":false,\"readFromDocValues\":false},{\"name\":\"signal.keyword\",\"type\":\"string\",\"esTypes\":[\"keyword\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":true,\"readFromDocValues\":true,\"subType\":{\"multi\":{\"parent\":\"signal\"}}},{\"name\":\"timestamp\",\"type\":\"date\",\"esTypes\":[\"date\"],\"count\":0,\"scripted\":false,\"searchable\":true,\"aggregatable\":true,\"readFromDocValues\":true}]","timeFieldName":"timestamp","title":"deckard*"},"coreMigrationVersion":"7.16.2","id":"0bbf2a82-11c3-4507-b7d5-6b8a5ceb12f7","migrationVersion":{"index-pattern":"7.11.0"},"references":[],"type":"index-pattern","updated_at":"2022-01-17T21:20:39.936Z","version":"WzI3NDYyLDRd"}
 {"attributes":{"columns":["queue","id","signal","last_score_subtract","lock_ms","breakpoint","reason"],"description":"","hits":0,"kibanaSavedObjectMeta":{"searchSourceJSON":"{\"highlightAll\":true,\"version\":true,\"query\":{\"language\":\"kuery\",\"query\":\"\"},\"filter\":[],\"indexRefName\":\"kibanaSavedObjectMeta.searchSourceJSON.index\"}"},"sort":[["timestamp","desc"]],"title":"Deckard - Messages","version":1},"coreMigrationVersion":"7.16.2","id":"bb781c37-ac45-416a-a6bc-70985f787ef6","migrationVersion":{"search":"7.9.3"},"references":[{"id":"0bbf2a82-11c3-4507-b7d5-6b8a5ceb12f7","name":"kibanaSavedObjectMeta.searchSourceJSON.index","type":"index-pattern"}],"type":"search","updated_at":"2022-01-17T21:20:39.936Z","version":"WzI3NDYzLDRd"}
 {"attributes":{"description":"","kibanaSavedObjectMeta":{"searchSourceJSON":"{\"query\":{\"query\":\"\",\"language\":\"kuery\"},\"filter\":[]}"},"savedSearchRefName":"search_0","title":"Deckard - Messages Count","uiStateJSON":"{}","version":1,"visState":"{\"title\":\"Deckard - Messages Count\",\"type\":\"line\",\"aggs\":[{\"id\":\"1\",\"enabled\":true,\"type\":\"count\",\"params\":{},\"schema\":\"metric\"},{\"id\":\"2\",\"enabled\":true,\"type\":\"date_histogram\",\"params\":{\"field\":\"timestamp\",\"timeRange\":{\"from\":\"now-15m\",\"to\":\"now\"},\"useNormalizedEsInterval\":true,\"scaleMetricValues\":false,\"interval\":\"auto\",\"drop_partials\":false,\"min_doc_count\":1,\"extended_bounds\":{}},\"schema\":\"segment\"},{\"id\":\"3\",\"enabled\":true,\"type\":\"sum\",\"params\":{\"field\":\"last_score_subtract\"},\"schema\":\"metric\"}],\"params\":{\"type\":\"histogram\",\"grid\":{\"categoryLines\":false},\"categoryAxes\":[{\"id\":\"CategoryAxis-1\",\"type\":\"category\",\"position\":\"bottom\",\"show\":true,\"style\":{},\"scale\":{\"type\":\"linear\"},\"labels\":{\"show\":true,\"filter\":true,\"truncate\":100},\"title\":{}}],\"valueAxes\":[{\"id\":\"ValueAxis-1\",\"name\":\"LeftAxis-1\",\"type\":\"value\",\"position\":\"left\",\"show\":true,\"style\":{},\"scale\":{\"type\":\"log\",\"mode\":\"normal\",\"defaultYExtents\":false,\"setYExtents\":false},\"labels\":{\"show\":true,\"rotate\":0,\"filter\":false,\"truncate\":100},\"title\":{\"text\":\"Count\"}},{\"id\":\"ValueAxis-2\",\"name\":\"RightAxis-1\",\"type\":\"value\",\"position\":\"right\",\"show\":true,\"style\":{},\"scale\":{\"type\":\"log\",\"mode\":\"normal\",\"defaultYExtents\":false,\"setYExtents\":false},\"labels\":{\"show\":true,\"rotate\":0,\"filter\":false,\"truncate\":100},\"title\":{\"text\":\"Count\"}}],\"seriesParams\":[{\"show\":\"true\",\"type\":\"line\",\"mode\":\"normal\",\"data\":{\"label\":\"Count\",\"id\":\"1\"},\"valueAxis\":\"ValueAxis-1\",\"drawLinesBetweenPoints\":true,\"showCircles\":true,\"interpolate\":\"linear\",\"circlesRadius\":1},{\"show\":true,\"mode\":\"normal\",\"type\":\"line\",\"drawLinesBetweenPoints\":true,\"showCircles\":true,\"data\":{\"id\":\"3\",\"label\":\"Sum of last_score_subtract\"},\"valueAxis\":\"ValueAxis-2\",\"interpolate\":\"linear\",\"circlesRadius\":1}],\"addTooltip\":true,\"addLegend\":true,\"legendPosition\":\"right\",\"times\":[],\"addTimeMarker\":false,\"labels\":{\"show\":false},\"thresholdLine\":{\"show\":false,\"value\":10,\"width\":1,\"style\":\"full\",\"color\":\"#34130C\"},\"dimensions\":{\"x\":{\"accessor\":0,\"format\":{\"id\":\"date\",\"params\":{\"pattern\":\"HH:mm\"}},\"params\":{\"date\":true,\"interval\":\"PT1M\",\"format\":\"HH:mm\",\"bounds\":{\"min\":\"2019-10-09T18:59:21.472Z\",\"max\":\"2019-10-09T20:59:21.472Z\"}},\"aggType\":\"date_histogram\"},\"y\":[{\"accessor\":1,\"format\":{\"id\":\"number\"},\"params\":{},\"aggType\":\"count\"}]},\"palette\":{\"type\":\"palette\",\"name\":\"kibana_palette\"},\"isVislibVis\":true,\"detailedTooltip\":true}}"},"coreMigrationVersion":"7.16.2","id":"8573a5a9-3d39-4903-be00-16ecadc8b23a","migrationVersion":{"visualization":"7.14.0"},"references":[{"id":"bb781c37-ac45-416a-a6bc-70985f787ef6","name":"search_0","type":"search"}],"type":"visualization","updated_at":"2022-01-17T21:20:39.936Z","version":"WzI3NDY0LDRd"}
 {"attributes":{"description":"","kibanaSavedObjectMeta":{"searchSourceJSON":"{\"query\":{\"query\":\"\",\"language\":\"kuery\"},\"filter\":[]}"},"savedSearchRefName":"search_0","title":"Deckard - Table messages sum score and count","uiStateJSON":"{\"vis\":{\"params\":{\"sort\":{\"columnIndex\":null,\"direction\":null}}}}","version":1,"visState":"{\"title\":\"Deckard - Table messages sum score and count\",\"type\":\"table\",\"aggs\":[{\"id\":\"1\",\"enabled\":true,\"type\":\"sum\",\"params\":{\"field\":\"last_score_subtract\",\"customLabel\":\"Total Last Score Subtract\"},\"schema\":\"metric\"},{\"id\":\"3\",\"enabled\":true,\"type\":\"terms\",\"params\":{\"field\":\"queue.keyword\",\"orderBy\":\"1\",\"order\":\"desc\",\"size\":50,\"otherBucket\":false,\"otherBucketLabel\":\"Other\",\"missingBucket\":false,\"missingBucketLabel\":\"Missing\",\"customLabel\":\"Queue\"},\"schema\":\"bucket\"},{\"id\":\"2\",\"enabled\":true,\"type\":\"terms\",\"params\":{\"field\":\"id.keyword\",\"orderBy\":\"1\",\"order\":\"desc\",\"size\":50,\"otherBucket\":false,\"otherBucketLabel\":\"Other\",\"missingBucket\":false,\"missingBucketLabel\":\"Missing\",\"customLabel\":\"Id\"},\"schema\":\"bucket\"},{\"id\":\"4\",\"enabled\":true,\"type\":\"count\",\"params\":{},\"schema\":\"metric\"},{\"id\":\"5\",\"enabled\":true,\"type\":\"terms\",\"params\":{\"field\":\"breakpoint.keyword\",\"orderBy\":\"1\",\"order\":\"desc\",\"size\":5,\"otherBucket\":false,\"otherBucketLabel\":\"Other\",\"missingBucket\":false,\"missingBucketLabel\":\"Missing\",\"customLabel\":\"Breakpoint\"},\"schema\":\"bucket\"}],\"params\":{\"perPage\":5,\"showPartialRows\":false,\"showMetricsAtAllLevels\":false,\"sort\":{\"columnIndex\":null,\"direction\":null},\"showTotal\":false,\"totalFunc\":\"sum\",\"percentageCol\":\"\",\"dimensions\":{\"metrics\":[{\"accessor\":2,\"format\":{\"id\":\"number\"},\"params\":{},\"aggType\":\"sum\"},{\"accessor\":3,\"format\":{\"id\":\"number\"},\"params\":{},\"aggType\":\"count\"}],\"buckets\":[{\"accessor\":0,\"format\":{\"id\":\"terms\",\"params\":{\"id\":\"string\",\"otherBucketLabel\":\"Other\",\"missingBucketLabel\":\"Missing\"}},\"params\":{},\"aggType\":\"terms\"},{\"accessor\":1,\"format\":{\"id\":\"terms\",\"params\":{\"id\":\"string\",\"otherBucketLabel\":\"Other\",\"missingBucketLabel\":\"Missing\"}},\"params\":{},\"aggType\":\"terms\"}]},\"showToolbar\":true}}"},"coreMigrationVersion":"7.16.2","id":"f58fd52d-5685-4032-ba37-bd1e2991fb8d","migrationVersion":{"visualization":"7.14.0"},"references":[{"id":"bb781c37-ac45-416a-a6bc-70985f787ef6","name":"search_0","type":"search"}],"type":"visualization","updated_at":"2022-01-17T21:20:39.936Z","version":"WzI3NDY1LDRd"}
-- 
2.43.0


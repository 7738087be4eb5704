From 5b8fac4bddd7747acf73ade4b31eda97120184be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 01/48] fix: read a bulk string completely before using it

---
 protocol/decode.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/protocol/decode.go b/protocol/decode.go
index 20cfcf0..4a3fdfb 100644
--- a/protocol/decode.go
+++ b/protocol/decode.go
@@ -1,6 +1,7 @@
 package protocol
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"io"
@@ -164,14 +165,17 @@ func (r *Receive) readBulkStrings(rr Reader, ln int) error {
 		return fmt.Errorf("invalid length")
 	}
 
-	val := make([]byte, ln+2)
-	_, err := rr.Read(val)
+	// a single Read may return less than asked for; copy until the whole value has
+	// arrived, growing with the data rather than trusting the announced length.
+	buf := new(bytes.Buffer)
+	_, err := io.CopyN(buf, rr, int64(ln)+int64(CRLFLen))
 	if err != nil {
 		return err
 	}
 
 	// trim last \r\n
-	r.append(string(val[:ln]), string(val))
+	val := buf.String()
+	r.append(val[:ln], val)
 
 	return nil
 }
-- 
2.43.0


From 46707951c1135bb4dfba2d2501f595c3e067e299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:59 +0000
Subject: [PATCH 02/48] fix: validate announced bulk and array lengths

---
 protocol/consts.go |  3 +++
 protocol/decode.go | 39 +++++++++++++++++++++++++++------------
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/protocol/consts.go b/protocol/consts.go
index 7f9f1c1..e0700a1 100644
--- a/protocol/consts.go
+++ b/protocol/consts.go
@@ -15,6 +15,9 @@ const (
 	CRLFLen = len(CRLF)
 )
 
+// maxBulkLength is the biggest length a client may announce (512MB, same as redis).
+const maxBulkLength = 512 * 1024 * 1024
+
 type ProtocolDataType int8
 
 const (
diff --git a/protocol/decode.go b/protocol/decode.go
index 4a3fdfb..d5da7de 100644
--- a/protocol/decode.go
+++ b/protocol/decode.go
@@ -120,7 +120,7 @@ func DecodeFromReader(r Reader) (rec *Receive, err error) {
 }
 
 func (r *Receive) decodeSingleLine(line []byte) (length int, desc byte, err error) {
-	if len(line) < 3 {
+	if len(line) < 3 || !bytes.HasSuffix(line, []byte(CRLF)) {
 		return 0, 0, fmt.Errorf("unsupported protocol")
 	}
 
@@ -130,7 +130,10 @@ func (r *Receive) decodeSingleLine(line []byte) (length int, desc byte, err erro
 	switch desc {
 	// bulk string
 	case DescriptionBulkStrings, descriptionArrays:
-		length = readBulkOrArrayLength(line)
+		length, err = readBulkOrArrayLength(line)
+		if err != nil {
+			return 0, 0, err
+		}
 	case DescriptionSimpleStrings, DescriptionErrors, DescriptionIntegers:
 		r.append(string(line[1:len(line)-CRLFLen]), "")
 		//str = string(line[1 : len(line)-CRLFLen])
@@ -145,19 +148,27 @@ func (r *Receive) decodeSingleLine(line []byte) (length int, desc byte, err erro
 	return
 }
 
-func readBulkOrArrayLength(line []byte) int {
-	if line[0] == '-' {
-		return -1
+// readBulkOrArrayLength parse the length of a bulk string or array header, it must be a
+// non-negative decimal number not greater than the protocol limit.
+func readBulkOrArrayLength(line []byte) (int, error) {
+	digits := bytes.TrimSuffix(line[1:], []byte(CRLF))
+	if len(digits) == 0 {
+		return 0, fmt.Errorf("invalid length")
 	}
 
-	var (
-		ln int
-	)
-	for i := 1; line[i] != '\r'; i++ {
-		ln = (ln * 10) + int(line[i]-'0')
+	ln := 0
+	for _, c := range digits {
+		if c < '0' || c > '9' {
+			return 0, fmt.Errorf("invalid length")
+		}
+
+		ln = ln*10 + int(c-'0')
+		if ln > maxBulkLength {
+			return 0, fmt.Errorf("invalid length")
+		}
 	}
 
-	return ln
+	return ln, nil
 }
 
 func (r *Receive) readBulkStrings(rr Reader, ln int) error {
@@ -188,10 +199,14 @@ func (r *Receive) readArray(rr Reader, ln int) error {
 		}
 
 		if line[0] == descriptionArrays {
-			subErr := r.readArray(rr, readBulkOrArrayLength(line))
+			subLn, subErr := readBulkOrArrayLength(line)
 			if subErr != nil {
 				return subErr
 			}
+
+			if subErr = r.readArray(rr, subLn); subErr != nil {
+				return subErr
+			}
 		}
 
 		length, desc, err := r.decodeSingleLine(line)
-- 
2.43.0


From a7d8971878be67a48e5b0e5b537b463a64b49458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 03/48] fix: bound the nesting of arrays in a request

---
 protocol/consts.go |  3 +++
 protocol/decode.go | 10 +++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/protocol/consts.go b/protocol/consts.go
index e0700a1..9326ab0 100644
--- a/protocol/consts.go
+++ b/protocol/consts.go
@@ -18,6 +18,9 @@ const (
 // maxBulkLength is the biggest length a client may announce (512MB, same as redis).
 const maxBulkLength = 512 * 1024 * 1024
 
+// maxArrayDepth is how deep arrays may be nested in one request.
+const maxArrayDepth = 32
+
 type ProtocolDataType int8
 
 const (
diff --git a/protocol/decode.go b/protocol/decode.go
index d5da7de..3255cdb 100644
--- a/protocol/decode.go
+++ b/protocol/decode.go
@@ -109,7 +109,7 @@ func DecodeFromReader(r Reader) (rec *Receive, err error) {
 
 	if desc == descriptionArrays {
 		// won't sava array element
-		err1 := rec.readArray(r, length)
+		err1 := rec.readArray(r, length, 1)
 		if err1 != nil {
 			log.Println("read bulk str err:", err1)
 			return nil, err1
@@ -191,7 +191,11 @@ func (r *Receive) readBulkStrings(rr Reader, ln int) error {
 	return nil
 }
 
-func (r *Receive) readArray(rr Reader, ln int) error {
+func (r *Receive) readArray(rr Reader, ln, depth int) error {
+	if depth > maxArrayDepth {
+		return fmt.Errorf("arrays nested too deeply")
+	}
+
 	for i := 0; i < ln; i++ {
 		line, err := rr.ReadBytes('\n')
 		if err != nil {
@@ -204,7 +208,7 @@ func (r *Receive) readArray(rr Reader, ln int) error {
 				return subErr
 			}
 
-			if subErr = r.readArray(rr, subLn); subErr != nil {
+			if subErr = r.readArray(rr, subLn, depth+1); subErr != nil {
 				return subErr
 			}
 		}
-- 
2.43.0


From bc6f21f2fee002871b5237cce2d82bd6b74c6191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:31 +0000
Subject: [PATCH 04/48] fix: refuse MSET with an odd number of arguments

---
 redis/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/string.go b/redis/string.go
index 150b931..e171016 100644
--- a/redis/string.go
+++ b/redis/string.go
@@ -20,7 +20,7 @@ func set(c *Command) (*protocol.Response, error) {
 
 // mSet .
 func mSet(c *Command) (*protocol.Response, error) {
-	if len(c.Values) < 2 && len(c.Values)%2 != 0 {
+	if len(c.Values) < 2 || len(c.Values)%2 != 0 {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-- 
2.43.0


From 123b1e1958d694bcadce579f368a423a80543601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:09 +0000
Subject: [PATCH 05/48] fix: refuse counter operations whose result does not
 fit in 64 bits

---
 datastruct/string.go | 29 ++++++++++++++++++++++++++---
 redis/string.go      |  2 +-
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/datastruct/string.go b/datastruct/string.go
index b2bc8e7..be8cd0b 100644
--- a/datastruct/string.go
+++ b/datastruct/string.go
@@ -38,10 +38,30 @@ func Append(key, value string) (ln int, err error) {
 }
 
 func IncrBy(key string, incrBy int64) (value int64, err error) {
+	return updateInteger(key, func(old int64) (int64, bool) {
+		sum := old + incrBy
+		return sum, (sum > old) == (incrBy > 0)
+	})
+}
+
+func DecrBy(key string, decrBy int64) (value int64, err error) {
+	return updateInteger(key, func(old int64) (int64, bool) {
+		diff := old - decrBy
+		return diff, (diff < old) == (decrBy > 0)
+	})
+}
+
+// updateInteger replaces the integer stored at key, 0 if there is none, by the result of calc
+// unless calc reports that the result does not fit.
+func updateInteger(key string, calc func(old int64) (value int64, ok bool)) (value int64, err error) {
 	v, ok := defaultCache.keys.Get(key)
 	if !ok {
-		Set(key, strconv.FormatInt(incrBy, 10))
-		return incrBy, nil
+		value, ok = calc(0)
+		if !ok {
+			return 0, ErrNotInteger
+		}
+		Set(key, strconv.FormatInt(value, 10))
+		return value, nil
 	}
 
 	info := v.(*KeyInfo)
@@ -53,7 +73,10 @@ func IncrBy(key string, incrBy int64) (value int64, err error) {
 	if err1 != nil {
 		return 0, ErrNotInteger
 	}
-	value = i64 + incrBy
+	value, ok = calc(i64)
+	if !ok {
+		return 0, ErrNotInteger
+	}
 	info.Value = strconv.FormatInt(value, 10)
 
 	return
diff --git a/redis/string.go b/redis/string.go
index e171016..c4056fa 100644
--- a/redis/string.go
+++ b/redis/string.go
@@ -109,7 +109,7 @@ func decrBy(c *Command) (*protocol.Response, error) {
 		return nil, datastruct.ErrNotInteger
 	}
 
-	i64, err := datastruct.IncrBy(c.Values[0], -decrement)
+	i64, err := datastruct.DecrBy(c.Values[0], decrement)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 4cda29309ffd516229b5e56006d7d735184807a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:13 +0000
Subject: [PATCH 06/48] fix: LINDEX looked up the index as the key

---
 redis/list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/list.go b/redis/list.go
index 84d3326..5a6d262 100644
--- a/redis/list.go
+++ b/redis/list.go
@@ -166,7 +166,7 @@ func lIndex(c *Command) (*protocol.Response, error) {
 		return nil, ErrValueOutOfRange
 	}
 
-	val, err := datastruct.LIndex(c.Values[1], index)
+	val, err := datastruct.LIndex(c.Values[0], index)
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithNilBulk(), nil
 	}
-- 
2.43.0


From d2087aaa77b92a65c9440d5c4e575cfa27fcb638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:13 +0000
Subject: [PATCH 07/48] fix: LREM of all elements kept a placeholder node in
 the list

---
 datastruct/list.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/datastruct/list.go b/datastruct/list.go
index 054d941..be89c88 100644
--- a/datastruct/list.go
+++ b/datastruct/list.go
@@ -218,7 +218,10 @@ func (l *List) LRemCountFromHead(value string, n int) (cnt int) {
 	}
 
 	l.head = dumbHead.next
-	if l.head != nil {
+	if l.head == nil {
+		// nothing left, prev is dumbHead
+		l.tail = nil
+	} else {
 		// if remove first element from, dumbHead.next.prev will be point to dumbHead
 		// // In other words, l.head.tail will be not nil
 		l.head.prev = nil
@@ -270,7 +273,10 @@ func (l *List) LRemCountFromTail(value string, n int) (cnt int) {
 	}
 
 	l.tail = dumbTail.prev
-	if l.tail != nil {
+	if l.tail == nil {
+		// nothing left, prev is dumbTail
+		l.head = nil
+	} else {
 		// if remove first element from tail, dumbTail.prev.next will be point to dumbTail
 		// In other words, l.tail.next will be not nil
 		l.tail.next = nil
@@ -550,6 +556,10 @@ func LRem(key string, count int, value string) (n int, err error) {
 	}
 
 	if count < 0 {
+		// more than all, and the negation of the smallest int does not fit
+		if count < -list.length {
+			count = -list.length
+		}
 		return list.LRemCountFromTail(value, -count), nil
 	}
 
-- 
2.43.0


From efe842eec3933072da9a2dc3d547cbb4737b7e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:35 +0000
Subject: [PATCH 08/48] fix: a list that becomes empty no longer keeps its key

---
 datastruct/list.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/datastruct/list.go b/datastruct/list.go
index be89c88..9fda048 100644
--- a/datastruct/list.go
+++ b/datastruct/list.go
@@ -440,6 +440,13 @@ func loadAndCheckList(key string, checkLen bool) (*List, error) {
 	return list, nil
 }
 
+// dropEmptyList removes the key once its last element is gone
+func dropEmptyList(key string, list *List) {
+	if list.length == 0 {
+		defaultCache.keys.Delete(key)
+	}
+}
+
 func LPush(key string, values ...string) (ln int, err error) {
 	list, err := loadAndCheckList(key, false)
 	if err == ErrNil {
@@ -468,6 +475,7 @@ func LPop(key string, count int) (values []string, err error) {
 	if err != nil {
 		return nil, err
 	}
+	defer dropEmptyList(key, list)
 
 	for count > 0 && list.length > 0 {
 		value, ok := list.LPop()
@@ -510,6 +518,7 @@ func RPop(key string, count int) (values []string, err error) {
 	if err != nil {
 		return nil, err
 	}
+	defer dropEmptyList(key, list)
 
 	for count > 0 && list.length > 0 {
 		value, ok := list.RPop()
@@ -550,6 +559,7 @@ func LRem(key string, count int, value string) (n int, err error) {
 	if err != nil {
 		return 0, err
 	}
+	defer dropEmptyList(key, list)
 
 	if count > 0 {
 		return list.LRemCountFromHead(value, count), nil
-- 
2.43.0


From 4d3c7e6598b36a1eae20c19b31874010842ebdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:24 +0000
Subject: [PATCH 09/48] fix: SPOP did not count the members it removed

---
 datastruct/set.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datastruct/set.go b/datastruct/set.go
index fd71b59..4633362 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -48,6 +48,7 @@ func (s *set) sPop(cnt int) []string {
 		cnt--
 		return true, true
 	})
+	s.length -= len(result)
 
 	return result
 }
-- 
2.43.0


From 7202ef46875d614ec9299a2c416dafb530b217eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:24 +0000
Subject: [PATCH 10/48] fix: SPOP without a count removes one member

---
 redis/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/set.go b/redis/set.go
index c30ea54..a8dddce 100644
--- a/redis/set.go
+++ b/redis/set.go
@@ -228,7 +228,7 @@ func SPop(c *Command) (*protocol.Response, error) {
 
 	var (
 		key = c.Values[0]
-		cnt int
+		cnt = 1
 		err error
 	)
 
-- 
2.43.0


From b461beb11c22ec8332435a4d113ef49507a0140f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:24 +0000
Subject: [PATCH 11/48] fix: SMEMBERS of a missing key is an empty array

---
 redis/set.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redis/set.go b/redis/set.go
index a8dddce..80d2b80 100644
--- a/redis/set.go
+++ b/redis/set.go
@@ -179,6 +179,10 @@ func sMembers(c *Command) (*protocol.Response, error) {
 	}
 
 	vals, err := datastruct.SMembers(c.Values[0])
+	if err == datastruct.ErrNil {
+		return protocol.NewResponseWithEmptyArray(), nil
+	}
+
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From a86619cf9d7d88ced5824ccf1d298a77b3e62887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:24 +0000
Subject: [PATCH 12/48] fix: SMOVE did not count the member it removed and lost
 it when refused

---
 datastruct/set.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/datastruct/set.go b/datastruct/set.go
index 4633362..616944d 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -186,8 +186,13 @@ func SMove(source, target, value string) (int, error) {
 		return 0, err
 	}
 
-	exists := sset.m.DeleteIfExists(value)
-	if !exists {
+	// refuse before anything has been moved
+	_, err = loadAndCheckSet(target, false)
+	if err != nil && err != ErrNil {
+		return 0, err
+	}
+
+	if sset.sRem(value) == 0 {
 		// not exist
 		return 0, ErrNil
 	}
-- 
2.43.0


From 2d240fd17d41229da7e0f38fc6336e6aa71ea0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:24 +0000
Subject: [PATCH 13/48] fix: set algebra treats a missing key as an empty set
 and accepts a single key

---
 datastruct/set.go | 22 ++++++++++++++++------
 redis/set.go      | 12 ------------
 2 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/datastruct/set.go b/datastruct/set.go
index 616944d..d2ad84e 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -110,6 +110,16 @@ func loadAndCheckSet(key string, check bool) (*set, error) {
 	return s, nil
 }
 
+// loadSetOrEmpty treats a missing key as the empty set
+func loadSetOrEmpty(key string) (*set, error) {
+	s, err := loadAndCheckSet(key, false)
+	if err == ErrNil {
+		return newSet(), nil
+	}
+
+	return s, err
+}
+
 func SAdd(key string, values ...string) (int, error) {
 	s, err := loadAndCheckSet(key, false)
 	if err == ErrNil {
@@ -204,7 +214,7 @@ func SDiff(keys ...string) ([]string, error) {
 	var result *set
 
 	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
+		s, err := loadSetOrEmpty(key)
 		if err != nil {
 			return nil, err
 		}
@@ -228,7 +238,7 @@ func SDiffStore(storeKey string, keys ...string) (int, error) {
 	var result *set
 
 	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
+		s, err := loadSetOrEmpty(key)
 		if err != nil {
 			return 0, err
 		}
@@ -258,7 +268,7 @@ func SInter(keys ...string) ([]string, error) {
 	var result *set
 
 	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
+		s, err := loadSetOrEmpty(key)
 		if err != nil {
 			return nil, err
 		}
@@ -282,7 +292,7 @@ func SInterStore(storeKey string, keys ...string) (int, error) {
 	var result *set
 
 	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
+		s, err := loadSetOrEmpty(key)
 		if err != nil {
 			return 0, err
 		}
@@ -312,7 +322,7 @@ func SUnion(keys ...string) ([]string, error) {
 	var result *set
 
 	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
+		s, err := loadSetOrEmpty(key)
 		if err != nil {
 			return nil, err
 		}
@@ -336,7 +346,7 @@ func SUnionStore(storeKey string, keys ...string) (int, error) {
 	var result *set
 
 	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
+		s, err := loadSetOrEmpty(key)
 		if err != nil {
 			return 0, err
 		}
diff --git a/redis/set.go b/redis/set.go
index 80d2b80..1deb5ae 100644
--- a/redis/set.go
+++ b/redis/set.go
@@ -44,10 +44,6 @@ func sDiff(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	if len(c.Values) == 1 {
-		return protocol.NewResponseWithEmptyArray(), nil
-	}
-
 	diffs, err := datastruct.SDiff(c.Values...)
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithEmptyArray(), nil
@@ -84,10 +80,6 @@ func sInter(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	if len(c.Values) == 1 {
-		return protocol.NewResponseWithEmptyArray(), nil
-	}
-
 	inter, err := datastruct.SInter(c.Values...)
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithEmptyArray(), nil
@@ -124,10 +116,6 @@ func sUnion(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	if len(c.Values) == 1 {
-		return protocol.NewResponseWithEmptyArray(), nil
-	}
-
 	unions, err := datastruct.SUnion(c.Values...)
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithEmptyArray(), nil
-- 
2.43.0


From 68e2ab028ce3a0e114edefa38135ffb94bc979b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:24 +0000
Subject: [PATCH 14/48] fix: a set stored from a single source shared that
 source

---
 datastruct/set.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/datastruct/set.go b/datastruct/set.go
index d2ad84e..31a6dc4 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -244,7 +244,8 @@ func SDiffStore(storeKey string, keys ...string) (int, error) {
 		}
 
 		if i == 0 {
-			result = s
+			// a copy, the stored result must not share the source
+			result = sUnion(s)
 			continue
 		}
 
@@ -298,7 +299,8 @@ func SInterStore(storeKey string, keys ...string) (int, error) {
 		}
 
 		if i == 0 {
-			result = s
+			// a copy, the stored result must not share the source
+			result = sUnion(s)
 			continue
 		}
 
@@ -352,7 +354,8 @@ func SUnionStore(storeKey string, keys ...string) (int, error) {
 		}
 
 		if i == 0 {
-			result = s
+			// a copy, the stored result must not share the source
+			result = sUnion(s)
 			continue
 		}
 
-- 
2.43.0


From f39e12a0a465a60d19fd38831ca26eca14b0e9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:32 +0000
Subject: [PATCH 15/48] fix: a set that becomes empty no longer keeps its key

---
 datastruct/set.go | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/datastruct/set.go b/datastruct/set.go
index 31a6dc4..f201cec 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -120,6 +120,22 @@ func loadSetOrEmpty(key string) (*set, error) {
 	return s, err
 }
 
+// dropEmptySet removes the key once its last member is gone
+func dropEmptySet(key string, s *set) {
+	if s.length == 0 {
+		defaultCache.keys.Delete(key)
+	}
+}
+
+// storeSet replaces whatever key holds, an empty result leaves no key
+func storeSet(key string, s *set) {
+	defaultCache.keys.Set(key, &KeyInfo{
+		Type:  KeyTypeSet,
+		Value: s,
+	})
+	dropEmptySet(key, s)
+}
+
 func SAdd(key string, values ...string) (int, error) {
 	s, err := loadAndCheckSet(key, false)
 	if err == ErrNil {
@@ -162,6 +178,7 @@ func SRem(key string, values ...string) (int, error) {
 	for _, value := range values {
 		cnt += s.sRem(value)
 	}
+	dropEmptySet(key, s)
 
 	return cnt, nil
 }
@@ -207,6 +224,8 @@ func SMove(source, target, value string) (int, error) {
 		return 0, ErrNil
 	}
 
+	dropEmptySet(source, sset)
+
 	return SAdd(target, value)
 }
 
@@ -256,10 +275,7 @@ func SDiffStore(storeKey string, keys ...string) (int, error) {
 		result = newSet()
 	}
 
-	defaultCache.keys.Set(storeKey, &KeyInfo{
-		Type:  KeyTypeSet,
-		Value: result,
-	})
+	storeSet(storeKey, result)
 
 	return result.length, nil
 }
@@ -311,10 +327,7 @@ func SInterStore(storeKey string, keys ...string) (int, error) {
 		result = newSet()
 	}
 
-	defaultCache.keys.Set(storeKey, &KeyInfo{
-		Type:  KeyTypeSet,
-		Value: result,
-	})
+	storeSet(storeKey, result)
 
 	return result.length, nil
 }
@@ -366,10 +379,7 @@ func SUnionStore(storeKey string, keys ...string) (int, error) {
 		result = newSet()
 	}
 
-	defaultCache.keys.Set(storeKey, &KeyInfo{
-		Type:  KeyTypeSet,
-		Value: result,
-	})
+	storeSet(storeKey, result)
 
 	return result.length, nil
 }
@@ -380,6 +390,8 @@ func SPop(key string, cnt int) ([]string, error) {
 		return nil, err
 	}
 
+	defer dropEmptySet(key, s)
+
 	return s.sPop(cnt), nil
 }
 
-- 
2.43.0


From 86cf94625f78bdb95b5217d26cb56d6e2909aafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 16/48] fix: a new hash was never stored under its key

---
 datastruct/hash_table.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 8194fe8..184296f 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -227,6 +227,10 @@ func HIncrBy(key, field string, i64 int64) (int64, error) {
 	h, err := loadAndCheckHashTable(key, false)
 	if err == ErrNil {
 		h = newHashTable()
+		defaultCache.keys.Set(key, &KeyInfo{
+			Type:  KeyTypeHashTable,
+			Value: h,
+		})
 		err = nil
 	}
 
@@ -241,6 +245,10 @@ func HIncrByFloat(key, field string, f64 float64) (float64, error) {
 	h, err := loadAndCheckHashTable(key, false)
 	if err == ErrNil {
 		h = newHashTable()
+		defaultCache.keys.Set(key, &KeyInfo{
+			Type:  KeyTypeHashTable,
+			Value: h,
+		})
 		err = nil
 	}
 
@@ -284,6 +292,10 @@ func HSet(key string, flag int, kvs ...*KV) (int, error) {
 	h, err := loadAndCheckHashTable(key, false)
 	if err == ErrNil {
 		h = newHashTable()
+		defaultCache.keys.Set(key, &KeyInfo{
+			Type:  KeyTypeHashTable,
+			Value: h,
+		})
 		err = nil
 	}
 
-- 
2.43.0


From 636252640e1439e329d0da7fc4bab56cf88c1730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 17/48] fix: HEXISTS answered 1 for absent fields

---
 datastruct/hash_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 184296f..64997d9 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -197,7 +197,7 @@ func HExists(key, field string) (int, error) {
 		return 1, nil
 	}
 
-	return 1, nil
+	return 0, nil
 }
 
 func HGet(key, field string) (interface{}, error) {
-- 
2.43.0


From 803de95beb4866a8dbcf1a6cb696251b33702a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 18/48] fix: HDEL reported the opposite and ignored all but the
 first field

---
 datastruct/hash_table.go | 11 ++++++++---
 redis/hash_table.go      |  2 +-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 64997d9..9fdd8fa 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -24,7 +24,7 @@ func newHashTable() *hashTable {
 }
 
 func (h *hashTable) del(field string) int {
-	remove := !h.table.DeleteIfExists(field)
+	remove := h.table.DeleteIfExists(field)
 	if remove {
 		h.length--
 		return 1
@@ -178,13 +178,18 @@ func loadAndCheckHashTable(key string, checkLen bool) (*hashTable, error) {
 	return h, nil
 }
 
-func HDel(key, field string) (int, error) {
+func HDel(key string, fields ...string) (int, error) {
 	h, err := loadAndCheckHashTable(key, true)
 	if err != nil {
 		return 0, err
 	}
 
-	return h.del(field), nil
+	var cnt int
+	for _, field := range fields {
+		cnt += h.del(field)
+	}
+
+	return cnt, nil
 }
 
 func HExists(key, field string) (int, error) {
diff --git a/redis/hash_table.go b/redis/hash_table.go
index bca2821..41c4bec 100644
--- a/redis/hash_table.go
+++ b/redis/hash_table.go
@@ -16,7 +16,7 @@ func hDel(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	cnt, err := datastruct.HDel(c.Values[0], c.Values[1])
+	cnt, err := datastruct.HDel(c.Values[0], c.Values[1:]...)
 	if err != nil && err != datastruct.ErrNil {
 		return nil, err
 	}
-- 
2.43.0


From e68db16f1f7b95edf51d3e236ce0ce512dc34f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 19/48] fix: HLEN did not count fields created by increments

---
 datastruct/hash_table.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 9fdd8fa..80a5af4 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -67,6 +67,7 @@ func (h *hashTable) getAll() map[string]interface{} {
 func (h *hashTable) incrBy(field string, i int64) (int64, error) {
 	res, abort := h.table.Upsert(field, i, func(exist bool, valueInMap interface{}, newValue interface{}) (interface{}, bool) {
 		if !exist {
+			h.length++
 			return i, false
 		}
 
@@ -89,6 +90,7 @@ func (h *hashTable) incrBy(field string, i int64) (int64, error) {
 func (h *hashTable) incrByFloat(field string, i float64) (float64, error) {
 	res, abort := h.table.Upsert(field, i, func(exist bool, valueInMap interface{}, newValue interface{}) (interface{}, bool) {
 		if !exist {
+			h.length++
 			return i, false
 		}
 
-- 
2.43.0


From 4dd5c52e867086fa31d821364c62eefeaf535a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 20/48] fix: HINCRBY refuses a result that does not fit in 64
 bits

---
 datastruct/hash_table.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 80a5af4..4c89f80 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -76,7 +76,12 @@ func (h *hashTable) incrBy(field string, i int64) (int64, error) {
 			return ErrNotInteger, true
 		}
 
-		return i64 + newValue.(int64), false
+		sum := i64 + newValue.(int64)
+		if (sum > i64) != (newValue.(int64) > 0) {
+			return ErrNotInteger, true
+		}
+
+		return sum, false
 	})
 
 	if abort {
-- 
2.43.0


From becaa1b3731b4b3179200dc091cab14782973bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 21/48] fix: HGETALL crashed on numeric values and hid the
 error for other kinds

---
 redis/hash_table.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/redis/hash_table.go b/redis/hash_table.go
index 41c4bec..66a75a4 100644
--- a/redis/hash_table.go
+++ b/redis/hash_table.go
@@ -53,6 +53,12 @@ func hGet(c *Command) (*protocol.Response, error) {
 	if err != nil {
 		return nil, err
 	}
+
+	return protocol.NewResponseWithBulkString(hashValueText(v)), nil
+}
+
+// hashValueText is the text of a field value, numbers are kept as numbers
+func hashValueText(v interface{}) string {
 	var res string
 	switch vv := v.(type) {
 	case string:
@@ -63,7 +69,7 @@ func hGet(c *Command) (*protocol.Response, error) {
 		res = strconv.FormatFloat(vv, 'g', -1, 64)
 	}
 
-	return protocol.NewResponseWithBulkString(res), nil
+	return res
 }
 
 // hGetAll .
@@ -73,12 +79,12 @@ func hGetAll(c *Command) (*protocol.Response, error) {
 	}
 
 	m, err := datastruct.HGetAll(c.Values[0])
-	if err == datastruct.ErrNil || len(m) == 0 {
-		return protocol.NewResponseWithNilBulk(), nil
+	if err != nil && err != datastruct.ErrNil {
+		return nil, err
 	}
 
-	if err != nil {
-		return nil, err
+	if len(m) == 0 {
+		return protocol.NewResponseWithNilBulk(), nil
 	}
 
 	var (
@@ -88,7 +94,7 @@ func hGetAll(c *Command) (*protocol.Response, error) {
 
 	for k, v := range m {
 		values[i] = k
-		values[i+1] = v
+		values[i+1] = hashValueText(v)
 		i += 2
 	}
 
-- 
2.43.0


From bba84a6f328b15b374439f691f2c4ea367592182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 22/48] fix: hash values that look like numbers came back
 reformatted

---
 datastruct/hash_table.go | 13 +++++++++++++
 util/strconv.go          |  5 +++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 4c89f80..040a010 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -100,6 +100,9 @@ func (h *hashTable) incrByFloat(field string, i float64) (float64, error) {
 		}
 
 		i64, ok := valueInMap.(float64)
+		if str, isStr := valueInMap.(string); isStr {
+			i64, ok = parseFloatText(str)
+		}
 		if !ok {
 			return ErrNotFloat, true
 		}
@@ -115,6 +118,16 @@ func (h *hashTable) incrByFloat(field string, i float64) (float64, error) {
 	return res.(float64), nil
 }
 
+// parseFloatText reads a float kept as text because formatting it would change its bytes, like "3.0"
+func parseFloatText(s string) (float64, bool) {
+	if _, err := strconv.ParseInt(s, 10, 64); err == nil {
+		return 0, false
+	}
+
+	f64, err := strconv.ParseFloat(s, 64)
+	return f64, err == nil
+}
+
 func (h *hashTable) keys() []string {
 	return h.table.Keys()
 }
diff --git a/util/strconv.go b/util/strconv.go
index 4f079e7..88f8384 100644
--- a/util/strconv.go
+++ b/util/strconv.go
@@ -5,15 +5,16 @@ import (
 )
 
 // ConvertToValidValue convert s either int64 or float64 otherwise return s itself.
+// A number that would not be formatted as s again stays a string, so that no byte of s is lost.
 func ConvertToValidValue(s string) interface{} {
 	// try int64
 	i64, err := strconv.ParseInt(s, 10, 64)
-	if err == nil {
+	if err == nil && strconv.FormatInt(i64, 10) == s {
 		return i64
 	}
 
 	f64, err := strconv.ParseFloat(s, 64)
-	if err == nil {
+	if err == nil && strconv.FormatFloat(f64, 'g', -1, 64) == s {
 		return f64
 	}
 
-- 
2.43.0


From 0068017bff1acc385b67b216367d1613abb6172e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:33 +0000
Subject: [PATCH 23/48] fix: ZRANK counted positions from one, unlike ZRANGE

---
 datastruct/sorted_set.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 7edcaef..735f1f5 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -643,7 +643,8 @@ func ZRank(key, value string) (uint, error) {
 	}
 
 	score := *(de.value.(*float64))
-	return zs.zsl.rank(score, value), nil
+	// the skip list counts positions from one
+	return zs.zsl.rank(score, value) - 1, nil
 }
 
 func ZRem(key string, values ...string) (int, error) {
-- 
2.43.0


From 6bec35ad81bcb0f7b1fe361f63f626d060554318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:37 +0000
Subject: [PATCH 24/48] fix: removing a sorted-set member stopped one step into
 each level

---
 datastruct/sorted_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 735f1f5..e32566b 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -261,7 +261,7 @@ func (zsl *zSkipList) delete(score float64, value string, node **zSkipListNode)
 	x := zsl.head
 
 	for i := zsl.level - 1; i >= 0; i-- {
-		if x.levels[i].forward != nil &&
+		for x.levels[i].forward != nil &&
 			(x.levels[i].forward.score < score ||
 				(x.levels[i].forward.score == score &&
 					x.levels[i].forward.value < value)) {
-- 
2.43.0


From 04f7f47b1f505f58866eb6a68c1e506eba679acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:32 +0000
Subject: [PATCH 25/48] fix: ZINCR replied 0 when the score stayed the same

---
 datastruct/sorted_set.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index e32566b..1b35d97 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -710,12 +710,9 @@ func ZIncr(key string, score float64, value string) (float64, error) {
 		})
 	}
 
-	node := zs.zAdd(score, value, ZAddInIncr)
-	if node == nil {
-		return 0, ErrNil
-	}
-
-	return node.score, nil
+	// no node comes back when the score stays the same
+	zs.zAdd(score, value, ZAddInIncr)
+	return *(zs.loadDictEntry(value).getValue().(*float64)), nil
 }
 
 // ZRange not support limit for now
-- 
2.43.0


From ab62dc6150000d2a23c04c32abfe02f635256891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:58 +0000
Subject: [PATCH 26/48] fix: NaN was accepted as a score or as the sum of two

---
 datastruct/sorted_set.go | 30 ++++++++++++++++++++++++++++++
 redis/sorted_set.go      |  5 +++--
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 1b35d97..a306bd6 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -593,6 +593,26 @@ type ZSetMember struct {
 	Value string
 }
 
+// checkIncr makes sure that adding to the scores, one after the other, only gives numbers
+func (zs *zSet) checkIncr(members []*ZSetMember) error {
+	scores := make(map[string]float64, len(members))
+	for _, m := range members {
+		old, ok := scores[m.Value]
+		if !ok {
+			if de := zs.loadDictEntry(m.Value); de != nil {
+				old = *(de.getValue().(*float64))
+			}
+		}
+
+		if math.IsNaN(old + m.Score) {
+			return ErrNotFloat
+		}
+		scores[m.Value] = old + m.Score
+	}
+
+	return nil
+}
+
 func ZAdd(key string, members []*ZSetMember, flag int) (int, error) {
 	zs, err := loadAndCheckZSet(key, false)
 	if err != nil && err != ErrNil {
@@ -607,6 +627,12 @@ func ZAdd(key string, members []*ZSetMember, flag int) (int, error) {
 		})
 	}
 
+	if flag&ZAddInIncr != 0 && flag&ZAddInNx == 0 {
+		if err = zs.checkIncr(members); err != nil {
+			return 0, err
+		}
+	}
+
 	var cnt int
 	for _, m := range members {
 		if node := zs.zAdd(m.Score, m.Value, flag); node != nil {
@@ -710,6 +736,10 @@ func ZIncr(key string, score float64, value string) (float64, error) {
 		})
 	}
 
+	if err = zs.checkIncr([]*ZSetMember{{Score: score, Value: value}}); err != nil {
+		return 0, err
+	}
+
 	// no node comes back when the score stays the same
 	zs.zAdd(score, value, ZAddInIncr)
 	return *(zs.loadDictEntry(value).getValue().(*float64)), nil
diff --git a/redis/sorted_set.go b/redis/sorted_set.go
index 46ca1d5..1ef05d5 100644
--- a/redis/sorted_set.go
+++ b/redis/sorted_set.go
@@ -1,6 +1,7 @@
 package redis
 
 import (
+	"math"
 	"strconv"
 	"strings"
 
@@ -36,7 +37,7 @@ func zAdd(c *Command) (*protocol.Response, error) {
 		// add more
 		default:
 			score, err := strconv.ParseFloat(c.Values[i], 64)
-			if err != nil {
+			if err != nil || math.IsNaN(score) {
 				return nil, ErrValueOutOfRange
 			}
 
@@ -156,7 +157,7 @@ func zIncr(c *Command) (*protocol.Response, error) {
 	}
 
 	score, err := strconv.ParseFloat(c.Values[1], 64)
-	if err != nil {
+	if err != nil || math.IsNaN(score) {
 		return nil, ErrValueOutOfRange
 	}
 
-- 
2.43.0


From f122cfe79cd7e110b079c31f24978fd8cbe9e0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:03 +0000
Subject: [PATCH 27/48] fix: ZADD that adds nothing left an empty key behind

---
 datastruct/sorted_set.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index a306bd6..6c3fd0e 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -619,12 +619,9 @@ func ZAdd(key string, members []*ZSetMember, flag int) (int, error) {
 		return 0, err
 	}
 
-	if zs == nil {
+	isNew := zs == nil
+	if isNew {
 		zs = newZSet()
-		defaultCache.keys.Set(key, &KeyInfo{
-			Type:  KeyTypeSortedSet,
-			Value: zs,
-		})
 	}
 
 	if flag&ZAddInIncr != 0 && flag&ZAddInNx == 0 {
@@ -640,6 +637,14 @@ func ZAdd(key string, members []*ZSetMember, flag int) (int, error) {
 		}
 	}
 
+	// with the xx flag, or without members, there may be nothing to keep
+	if isNew && zs.zsl.length > 0 {
+		defaultCache.keys.Set(key, &KeyInfo{
+			Type:  KeyTypeSortedSet,
+			Value: zs,
+		})
+	}
+
 	return cnt, nil
 }
 
-- 
2.43.0


From 239d88683120176c30d83fc1dac463c48d682b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:00 +0000
Subject: [PATCH 28/48] fix: popped sorted-set members kept their score, and
 ZPOPMAX went past the last member

---
 datastruct/sorted_set.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 6c3fd0e..1bc8d47 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -819,9 +819,10 @@ func ZPopMin(key string, cnt int) ([]string, error) {
 	for i := 0; i < cnt; i++ {
 		node := zs.zsl.findElementByRank(1)
 		if node == nil {
-			return result, nil
+			break
 		}
 
+		zs.loadAndDeleteDictEntry(node.value)
 		zs.zsl.delete(node.score, node.value, nil)
 		result = append(result,
 			node.value,
@@ -838,12 +839,13 @@ func ZPopMax(key string, cnt int) ([]string, error) {
 	}
 
 	var result []string
-	for i := 0; i < cnt; i++ {
+	for i := 0; i < cnt && zs.zsl.length > 0; i++ {
 		node := zs.zsl.findElementByRank(uint(zs.zsl.length))
 		if node == nil {
-			return result, nil
+			break
 		}
 
+		zs.loadAndDeleteDictEntry(node.value)
 		zs.zsl.delete(node.score, node.value, nil)
 		result = append(result,
 			node.value,
-- 
2.43.0


From 01611ed2c4904fea2f9b5e34c32fa24d5f880cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:04 +0000
Subject: [PATCH 29/48] fix: a sorted set that becomes empty no longer keeps
 its key

---
 datastruct/sorted_set.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 1bc8d47..7d38373 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -678,6 +678,13 @@ func ZRank(key, value string) (uint, error) {
 	return zs.zsl.rank(score, value) - 1, nil
 }
 
+// dropEmptyZSet removes the key once its last member is gone
+func dropEmptyZSet(key string, zs *zSet) {
+	if zs.zsl.length == 0 {
+		defaultCache.keys.Delete(key)
+	}
+}
+
 func ZRem(key string, values ...string) (int, error) {
 	zs, err := loadAndCheckZSet(key, true)
 	if err != nil {
@@ -696,6 +703,8 @@ func ZRem(key string, values ...string) (int, error) {
 		cnt++
 	}
 
+	dropEmptyZSet(key, zs)
+
 	return cnt, nil
 }
 
@@ -829,6 +838,8 @@ func ZPopMin(key string, cnt int) ([]string, error) {
 			strconv.FormatFloat(node.score, 'g', -1, 64))
 	}
 
+	dropEmptyZSet(key, zs)
+
 	return result, nil
 }
 
@@ -852,6 +863,8 @@ func ZPopMax(key string, cnt int) ([]string, error) {
 			strconv.FormatFloat(node.score, 'g', -1, 64))
 	}
 
+	dropEmptyZSet(key, zs)
+
 	return result, nil
 }
 
-- 
2.43.0


From c7d71c3f035057601977ceb4edcdf05d3b1545bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:09 +0000
Subject: [PATCH 30/48] fix: ZPOPMIN and ZPOPMAX hid the error for keys of
 another kind

---
 redis/sorted_set.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/redis/sorted_set.go b/redis/sorted_set.go
index 1ef05d5..23c7e92 100644
--- a/redis/sorted_set.go
+++ b/redis/sorted_set.go
@@ -274,12 +274,12 @@ func zPopMin(c *Command) (*protocol.Response, error) {
 	}
 
 	values, err := datastruct.ZPopMin(key, cnt)
-	if err == datastruct.ErrNil || len(values) == 0 {
-		return protocol.NewResponseWithEmptyArray(), nil
+	if err != nil && err != datastruct.ErrNil {
+		return nil, err
 	}
 
-	if err != nil {
-		return nil, err
+	if len(values) == 0 {
+		return protocol.NewResponseWithEmptyArray(), nil
 	}
 
 	return protocol.NewResponse(true).AppendBulkStrings(values...), nil
@@ -305,12 +305,12 @@ func zPopMix(c *Command) (*protocol.Response, error) {
 	}
 
 	values, err := datastruct.ZPopMax(key, cnt)
-	if err == datastruct.ErrNil || len(values) == 0 {
-		return protocol.NewResponseWithEmptyArray(), nil
+	if err != nil && err != datastruct.ErrNil {
+		return nil, err
 	}
 
-	if err != nil {
-		return nil, err
+	if len(values) == 0 {
+		return protocol.NewResponseWithEmptyArray(), nil
 	}
 
 	return protocol.NewResponse(true).AppendBulkStrings(values...), nil
-- 
2.43.0


From 5c9ae0916db5cdde8aa0746aa220e1ceb5e122e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:13 +0000
Subject: [PATCH 31/48] fix: ZREVRANGE counted positions from the lowest score

---
 datastruct/sorted_set.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 7d38373..bcadbf0 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -455,7 +455,8 @@ func (zsl *zSkipList) zRevRange(start, stop int, withScores bool) []string {
 		stop = zsl.length - 1
 	}
 
-	node := zsl.findElementByRank(uint(stop) + 1)
+	// positions count from the highest score
+	node := zsl.findElementByRank(uint(zsl.length - start))
 	var (
 		rangeLen = stop - start + 1
 		result   []string
-- 
2.43.0


From 9bdad30b8b46f675cfd5a01ad5eba90b2901fdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:39 +0000
Subject: [PATCH 32/48] fix: sorted-set queries by score miscounted for ties,
 gaps and ends outside the scores

---
 datastruct/sorted_set.go | 83 +++++++---------------------------------
 1 file changed, 13 insertions(+), 70 deletions(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index bcadbf0..97468bd 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -308,90 +308,44 @@ LevelLoop:
 
 // minOpen == true => (min,  for example (1,true,2,false) => zscore xxx (1 2
 func (zsl *zSkipList) count(min float64, minOpen bool, max float64, maxOpen bool) int {
-	// -inf +inf
-	if math.IsInf(min, -1) && math.IsInf(max, 1) {
-		return zsl.length
+	n := zsl.maxScoreRank(max, maxOpen) - zsl.minScoreRank(min, minOpen) + 1
+	if n < 0 {
+		return 0
 	}
 
-	minRank := zsl.minScoreRank(min, minOpen)
-	maxRank := zsl.maxScoreRank(max, maxOpen)
-	fmt.Println(minRank, maxRank)
-
-	// -inf:max
-	if minRank <= 0 {
-		return maxRank
-	}
-
-	if maxRank < 0 {
-		return zsl.length - minRank + 1
-	}
-
-	return maxRank - minRank + 1
+	return n
 }
 
-// return -1 if score is inf
+// minScoreRank returns the position, counted from one, of the first element not below the lower end
 func (zsl *zSkipList) minScoreRank(score float64, openInterval bool) int {
-	if math.IsInf(score, 0) {
-		return -1
-	}
-
 	var (
 		rank uint
 		x    = zsl.head
-		cur  = zsl.head
 	)
-loop:
 	for i := zsl.level - 1; i >= 0; i-- {
 		for x.levels[i].forward != nil &&
-			(x.levels[i].forward.score <= score) {
+			(x.levels[i].forward.score < score ||
+				(openInterval && x.levels[i].forward.score == score)) {
 			rank += x.levels[i].span
-			cur = x
 			x = x.levels[i].forward
-
-			// got the position
-			if x.score > score || (openInterval && x.score == score) {
-				// score not exit in the list, it just between two elements
-				if cur.score < score && x.score > score {
-					rank += 1
-				}
-
-				if x.score == score && openInterval {
-					rank += 1
-				}
-
-				break loop
-			}
 		}
 	}
 
-	return int(rank)
+	return int(rank) + 1
 }
 
-// return -1 if score is inf
+// maxScoreRank returns the position, counted from one, of the last element not above the upper end
 func (zsl *zSkipList) maxScoreRank(score float64, openInterval bool) int {
-	if math.IsInf(score, 0) {
-		return -1
-	}
-
 	var (
 		rank uint
 		x    = zsl.head
 	)
-loop:
 	for i := zsl.level - 1; i >= 0; i-- {
 		for x.levels[i].forward != nil &&
-			(x.levels[i].forward.score <= score) {
+			(x.levels[i].forward.score < score ||
+				(!openInterval && x.levels[i].forward.score == score)) {
 			rank += x.levels[i].span
 			x = x.levels[i].forward
-
-			// got the position
-			if x.score > score || (openInterval && x.score == score) {
-				if x.score == score && openInterval {
-					rank -= 1
-				}
-
-				break loop
-			}
 		}
 	}
 
@@ -475,21 +429,10 @@ func (zsl *zSkipList) zRevRange(start, stop int, withScores bool) []string {
 }
 
 func (zsl *zSkipList) zRangeByScore(min float64, minOpen bool, max float64, maxOpen bool, withScores bool) []string {
-	// -inf +inf
-	if math.IsInf(min, -1) && math.IsInf(max, 1) {
-		return zsl.zRange(0, zsl.length, withScores)
-	}
-
 	minRank := zsl.minScoreRank(min, minOpen)
 	maxRank := zsl.maxScoreRank(max, maxOpen)
-	fmt.Println(minRank, maxRank)
-	// -inf:max
-	if minRank <= 0 {
-		return zsl.zRange(0, maxRank-1, withScores)
-	}
-
-	if maxRank < 0 {
-		return zsl.zRange(minRank-1, zsl.length, withScores)
+	if minRank > maxRank {
+		return nil
 	}
 
 	return zsl.zRange(minRank-1, maxRank-1, withScores)
-- 
2.43.0


From 8f837625f555aef9e92e04fc827556ed379c0b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:44 +0000
Subject: [PATCH 33/48] fix: NaN was accepted as the end of a score interval

---
 datastruct/sorted_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 97468bd..4c52c03 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -829,7 +829,7 @@ func handleFloatScoreStr(str string) (float64, bool, error) {
 		}
 
 		f, err := strconv.ParseFloat(tmp, 64)
-		if err != nil {
+		if err != nil || math.IsNaN(f) {
 			return 0, false, ErrNotFloat
 		}
 
-- 
2.43.0


From 34f0789a29aaa3cb871e72e9e761b6e0148f651f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:25 +0000
Subject: [PATCH 34/48] fix: a hash that becomes empty no longer keeps its key

---
 datastruct/hash_table.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 040a010..4874f7f 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -198,6 +198,13 @@ func loadAndCheckHashTable(key string, checkLen bool) (*hashTable, error) {
 	return h, nil
 }
 
+// dropEmptyHash removes the key once its last field is gone
+func dropEmptyHash(key string, h *hashTable) {
+	if h.length == 0 {
+		defaultCache.keys.Delete(key)
+	}
+}
+
 func HDel(key string, fields ...string) (int, error) {
 	h, err := loadAndCheckHashTable(key, true)
 	if err != nil {
@@ -209,6 +216,8 @@ func HDel(key string, fields ...string) (int, error) {
 		cnt += h.del(field)
 	}
 
+	dropEmptyHash(key, h)
+
 	return cnt, nil
 }
 
-- 
2.43.0


From cae28ac998e3cd16b9f345d270a0a134fb8b2bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:57 +0000
Subject: [PATCH 35/48] fix: MGET answers nil for a key of another kind instead
 of crashing on its reply

---
 datastruct/string.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/datastruct/string.go b/datastruct/string.go
index be8cd0b..d5af432 100644
--- a/datastruct/string.go
+++ b/datastruct/string.go
@@ -101,14 +101,10 @@ func MGet(keys ...string) []interface{} {
 	var result []interface{}
 
 	for _, key := range keys {
+		// a key holding another kind of value has no string to answer with, as in redis
 		val, err := Get(key)
-		if err == ErrNil {
-			result = append(result, nil)
-			continue
-		}
-
 		if err != nil {
-			result = append(result, err)
+			result = append(result, nil)
 			continue
 		}
 
-- 
2.43.0


From 7c87e5f0e156f65aad0af9c217efef3b2f1f9358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:59 +0000
Subject: [PATCH 36/48] fix: a malformed KEYS pattern killed the server

---
 datastruct/consts.go |  1 +
 datastruct/keys.go   | 15 +++++++++++++--
 redis/keys.go        |  6 +++++-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/datastruct/consts.go b/datastruct/consts.go
index 194e231..4a8c2af 100644
--- a/datastruct/consts.go
+++ b/datastruct/consts.go
@@ -18,6 +18,7 @@ var (
 	ErrNil                   = errors.New("redis: not found")
 	ErrKeyAndCommandNotMatch = errors.New("key type and command not match")
 	ErrNotInteger            = errors.New("value is not an integer or out of range")
+	ErrInvalidPattern        = errors.New("ERR invalid pattern")
 	ErrNotFloat              = errors.New("ERR value is not a valid float")
 )
 
diff --git a/datastruct/keys.go b/datastruct/keys.go
index 5985a41..ae1eac3 100644
--- a/datastruct/keys.go
+++ b/datastruct/keys.go
@@ -59,8 +59,19 @@ func Type(key string) (kt KeyType, found bool) {
 	return v.(*KeyInfo).Type, true
 }
 
-func Keys(pattern string) (keys []string) {
-	g := glob.MustCompile(pattern)
+func Keys(pattern string) (keys []string, err error) {
+	g, err := glob.Compile(pattern)
+	if err != nil {
+		return nil, ErrInvalidPattern
+	}
+
+	// some malformed patterns compile and panic only when matched
+	defer func() {
+		if recover() != nil {
+			keys, err = nil, ErrInvalidPattern
+		}
+	}()
+
 	defaultCache.keys.Range(func(key string, _ interface{}) bool {
 		if g.Match(key) {
 			keys = append(keys, key)
diff --git a/redis/keys.go b/redis/keys.go
index b8f4b0f..a9af654 100644
--- a/redis/keys.go
+++ b/redis/keys.go
@@ -14,7 +14,11 @@ func keys(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	values := datastruct.Keys(c.Values[0])
+	values, err := datastruct.Keys(c.Values[0])
+	if err != nil {
+		return nil, err
+	}
+
 	return protocol.NewResponse(true).AppendBulkStrings(values...), nil
 }
 
-- 
2.43.0


From 7e7357df7a8801ca367d6ed076d9f07f9fd746bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:52 +0000
Subject: [PATCH 37/48] fix: stopping the event pool dropped requests that were
 already queued

---
 event/event_pool.go |  4 ----
 event/worker.go     | 28 ++++++++--------------------
 2 files changed, 8 insertions(+), 24 deletions(-)

diff --git a/event/event_pool.go b/event/event_pool.go
index 489aab0..7899c64 100644
--- a/event/event_pool.go
+++ b/event/event_pool.go
@@ -26,10 +26,6 @@ func (ep *EventPool) AddEvent(e *Event) {
 
 func (ep *EventPool) Stop() {
 	close(ep.eventChan)
-	for _, w := range ep.workers {
-		w.stop()
-	}
-
 	ep.wg.Wait()
 }
 
diff --git a/event/worker.go b/event/worker.go
index 6e3bf51..33107d0 100644
--- a/event/worker.go
+++ b/event/worker.go
@@ -1,42 +1,30 @@
 package event
 
 import (
-	"log"
 	"sync"
 )
 
 type worker struct {
-	ep   *EventPool
-	done chan bool
+	ep *EventPool
 }
 
 func newWorker(ep *EventPool) *worker {
 	return &worker{
-		ep:   ep,
-		done: make(chan bool, 1),
+		ep: ep,
 	}
 }
 
+// run handles events until the event channel is closed and drained.
 func (w *worker) run(wg *sync.WaitGroup) {
 	defer wg.Done()
 
 	for {
-		select {
-		case <-w.done:
-			log.Println("worker done")
+		e := <-w.ep.eventChan
+		if e == nil {
 			return
-		case e := <-w.ep.eventChan:
-			if e == nil {
-				return
-			}
-
-			e.Rsp = <-e.Cmd.ExecuteAsync()
-			close(e.done)
 		}
-	}
-}
 
-func (w *worker) stop() {
-	w.done <- true
-	close(w.done)
+		e.Rsp = <-e.Cmd.ExecuteAsync()
+		close(e.done)
+	}
 }
-- 
2.43.0


From af6047b3438fcf461b87c55d18a2a52b2973811b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:56 +0000
Subject: [PATCH 38/48] fix: requests during or after a stop, and a second
 stop, crashed the server

---
 event/event_pool.go | 25 +++++++++++++++++++++----
 event/handler.go    |  7 ++++++-
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/event/event_pool.go b/event/event_pool.go
index 7899c64..dd21bf4 100644
--- a/event/event_pool.go
+++ b/event/event_pool.go
@@ -5,6 +5,8 @@ import (
 )
 
 type EventPool struct {
+	mu        sync.RWMutex // guards closed; held for reading while sending
+	closed    bool
 	eventChan chan *Event
 	workers   []*worker
 	wg        *sync.WaitGroup
@@ -20,12 +22,27 @@ func NewEventPool() *EventPool {
 	return ep
 }
 
-func (ep *EventPool) AddEvent(e *Event) {
+// AddEvent reports whether the event was accepted, which it is not once the pool is stopped.
+func (ep *EventPool) AddEvent(e *Event) bool {
+	ep.mu.RLock()
+	defer ep.mu.RUnlock()
+
+	if ep.closed {
+		return false
+	}
+
 	ep.eventChan <- e
+	return true
 }
 
 func (ep *EventPool) Stop() {
-	close(ep.eventChan)
+	ep.mu.Lock()
+	if !ep.closed {
+		ep.closed = true
+		close(ep.eventChan)
+	}
+	ep.mu.Unlock()
+
 	ep.wg.Wait()
 }
 
@@ -52,8 +69,8 @@ func SetGlobalEventPool(ep *EventPool) {
 	globalEventPool = ep
 }
 
-func AddEvent(e *Event) {
-	globalEventPool.AddEvent(e)
+func AddEvent(e *Event) bool {
+	return globalEventPool.AddEvent(e)
 }
 
 func Stop() {
diff --git a/event/handler.go b/event/handler.go
index 0ae9d66..90a5605 100644
--- a/event/handler.go
+++ b/event/handler.go
@@ -2,6 +2,7 @@ package event
 
 import (
 	"context"
+	"errors"
 	"log"
 	"time"
 
@@ -11,6 +12,8 @@ import (
 	"github.com/yusank/godis/redis"
 )
 
+var errStopped = errors.New("ERR server is shutting down")
+
 // HandleRequest receive protocol.Receive as params and return response
 func HandleRequest(rec *protocol.Receive) []byte {
 	// io data to protocol msg
@@ -33,7 +36,9 @@ func HandleRequest(rec *protocol.Receive) []byte {
 
 	// event handler handle event one by one
 	e := NewEvent(cmd)
-	AddEvent(e)
+	if !AddEvent(e) {
+		return protocol.NewResponseWithError(errStopped).Encode()
+	}
 
 	// wait for result or context timeout
 	var rsp *protocol.Response
-- 
2.43.0


From b195bb4013060088d9623ffb7b76105dd9f1f378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:51 +0000
Subject: [PATCH 39/48] fix: pipelined and divided requests were lost or
 answered out of order

Every read from the network was taken for exactly one request: further
requests in it were dropped, a request spread over several reads was never
answered, and requests of different reads could overtake each other. Each
connection is now served by one goroutine that decodes its byte stream.
---
 server/v2/server.go | 50 ++++++++++++++++++++++++++++-------
 server/v2/stream.go | 63 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 104 insertions(+), 9 deletions(-)
 create mode 100644 server/v2/stream.go

diff --git a/server/v2/server.go b/server/v2/server.go
index 69b9fec..5080df6 100644
--- a/server/v2/server.go
+++ b/server/v2/server.go
@@ -1,8 +1,9 @@
 package v2
 
 import (
-	"bytes"
+	"bufio"
 	"context"
+	"io"
 	"log"
 	"time"
 
@@ -41,27 +42,58 @@ func (s *Server) Stop() {
 	}
 }
 
+func (s *Server) OnOpened(c gnet.Conn) (out []byte, action gnet.Action) {
+	st := newStream()
+	c.SetContext(st)
+
+	if err := s.pool.Submit(func() { serve(c, st) }); err != nil {
+		log.Println(err)
+		return nil, gnet.Close
+	}
+
+	return
+}
+
 func (s *Server) React(frame []byte, c gnet.Conn) (out []byte, action gnet.Action) {
-	var data = make([]byte, len(frame))
-	copy(data, frame)
+	// a frame may end anywhere in a request and hold any number of them
+	if st, ok := c.Context().(*stream); ok {
+		st.write(frame)
+	}
+
+	return
+}
+
+func (s *Server) OnClosed(c gnet.Conn, err error) (action gnet.Action) {
+	if st, ok := c.Context().(*stream); ok {
+		st.close()
+	}
+
+	return
+}
 
-	_ = s.pool.Submit(func() {
-		buf := bytes.NewBuffer(data)
+// serve answers the requests of one connection one by one.
+func serve(c gnet.Conn, st *stream) {
+	buf := bufio.NewReader(st)
+	for {
 		rec, err := protocol.DecodeFromReader(buf)
+		if err == io.EOF {
+			return
+		}
+
 		if err != nil {
+			// there is no telling where the next request begins
 			log.Println(err)
+			_ = c.Close()
 			return
 		}
 
 		reply := event.HandleRequest(rec)
 		if len(reply) == 0 {
-			return
+			continue
 		}
 
 		_ = c.AsyncWrite(reply)
-	})
-
-	return
+	}
 }
 
 func (s *Server) OnShutdown(srv gnet.Server) {
diff --git a/server/v2/stream.go b/server/v2/stream.go
new file mode 100644
index 0000000..a22cd34
--- /dev/null
+++ b/server/v2/stream.go
@@ -0,0 +1,63 @@
+package v2
+
+import (
+	"io"
+	"sync"
+)
+
+// stream hands the bytes a connection receives to the goroutine serving that connection.
+type stream struct {
+	mu     sync.Mutex
+	data   []byte
+	closed bool
+	ready  chan struct{}
+}
+
+func newStream() *stream {
+	return &stream{ready: make(chan struct{}, 1)}
+}
+
+// write keeps a copy of p and never blocks.
+func (s *stream) write(p []byte) {
+	s.mu.Lock()
+	s.data = append(s.data, p...)
+	s.mu.Unlock()
+
+	s.notify()
+}
+
+// close ends the stream after the bytes written so far.
+func (s *stream) close() {
+	s.mu.Lock()
+	s.closed = true
+	s.mu.Unlock()
+
+	s.notify()
+}
+
+func (s *stream) notify() {
+	select {
+	case s.ready <- struct{}{}:
+	default:
+	}
+}
+
+// Read waits for bytes or for the end of the stream.
+func (s *stream) Read(p []byte) (int, error) {
+	for {
+		s.mu.Lock()
+		n, closed := copy(p, s.data), s.closed
+		s.data = s.data[n:]
+		s.mu.Unlock()
+
+		if n > 0 || len(p) == 0 {
+			return n, nil
+		}
+
+		if closed {
+			return 0, io.EOF
+		}
+
+		<-s.ready
+	}
+}
-- 
2.43.0


From e3bf8fa85b8b3d9e7ec43365e96146d706a7e4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:53 +0000
Subject: [PATCH 40/48] fix: an insertion beside a skip list node of the
 greatest height crashed

---
 datastruct/sorted_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 4c52c03..a45f7a9 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -135,7 +135,7 @@ func (zsl *zSkipList) insert(score float64, value string) *zSkipListNode {
 	var (
 		update   = make([]*zSkipListNode, ZSkipListMaxLevel) // 记录更新
 		x        *zSkipListNode
-		rank     = make([]uint, ZSkipListMaxLevel)
+		rank     = make([]uint, ZSkipListMaxLevel+1) // rank[i+1] is read for the top level too
 		i, level int
 	)
 
-- 
2.43.0


From 9c7bcf39096e2b162a827dee1758328ea40da951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:01 +0000
Subject: [PATCH 41/48] fix: the command generator wrote to another directory
 when a directory's name contains .go

---
 cmd/gen_redis_cmd/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gen_redis_cmd/main.go b/cmd/gen_redis_cmd/main.go
index 9251e3b..28e868b 100644
--- a/cmd/gen_redis_cmd/main.go
+++ b/cmd/gen_redis_cmd/main.go
@@ -88,7 +88,7 @@ func readAndParseFile(fp string) ([]KV, error) {
 }
 
 func writeFile(name string, kvs []KV) error {
-	name = strings.Replace(name, ".go", generatedFileSuffix, 1)
+	name = strings.TrimSuffix(name, ".go") + generatedFileSuffix
 	f, err := os.Create(name)
 	if err != nil {
 		return err
-- 
2.43.0


From d5f0020c0f0e01e2a89555ca4ec275d15d387790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:01 +0000
Subject: [PATCH 42/48] fix: the command generator overwrote a file that is not
 a command source

---
 cmd/gen_redis_cmd/main.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/cmd/gen_redis_cmd/main.go b/cmd/gen_redis_cmd/main.go
index 28e868b..4db4205 100644
--- a/cmd/gen_redis_cmd/main.go
+++ b/cmd/gen_redis_cmd/main.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"bufio"
+	"fmt"
 	"log"
 	"os"
 	"regexp"
@@ -38,12 +39,8 @@ const (
 
 func readAndParseFile(fp string) ([]KV, error) {
 	var kvs = make([]KV, 0)
-	if !strings.HasSuffix(fp, ".go") {
-		return nil, nil
-	}
-
-	if strings.HasSuffix(fp, generatedFileSuffix) {
-		return nil, nil
+	if !strings.HasSuffix(fp, ".go") || strings.HasSuffix(fp, generatedFileSuffix) {
+		return nil, fmt.Errorf("%s is not a command source file", fp)
 	}
 
 	f, err := os.Open(fp)
-- 
2.43.0


From ff80674bf87b104859360c8745cf33c365b7ff25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:02 +0000
Subject: [PATCH 43/48] fix: the command generator left out the functions after
 a very long line

---
 cmd/gen_redis_cmd/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/gen_redis_cmd/main.go b/cmd/gen_redis_cmd/main.go
index 4db4205..48ed0a5 100644
--- a/cmd/gen_redis_cmd/main.go
+++ b/cmd/gen_redis_cmd/main.go
@@ -75,10 +75,10 @@ func readAndParseFile(fp string) ([]KV, error) {
 			kvs = append(kvs, kv)
 		}
 		lastLine = strings.TrimSpace(scanner.Text())
+	}
 
-		if err != nil {
-			return nil, err
-		}
+	if err = scanner.Err(); err != nil {
+		return nil, err
 	}
 
 	return kvs, nil
-- 
2.43.0


From 202ec0ccdacd56934a99cab833d1e7e6e6e34b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:02 +0000
Subject: [PATCH 44/48] fix: the command generator took other lines than names
 for the name of a command

---
 cmd/gen_redis_cmd/main.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/cmd/gen_redis_cmd/main.go b/cmd/gen_redis_cmd/main.go
index 48ed0a5..e6b5b72 100644
--- a/cmd/gen_redis_cmd/main.go
+++ b/cmd/gen_redis_cmd/main.go
@@ -62,14 +62,8 @@ func readAndParseFile(fp string) ([]KV, error) {
 				FuncName: fName,
 			}
 
-			if lastLine != "" {
-				kv.CmdName = strings.ToLower(
-					strings.TrimSpace(
-						strings.TrimPrefix(
-							strings.TrimSuffix(lastLine, "."),
-							"//"),
-					),
-				)
+			if name := commentName(lastLine); name != "" {
+				kv.CmdName = strings.ToLower(name)
 			}
 
 			kvs = append(kvs, kv)
@@ -139,6 +133,20 @@ func regexCmdFuncStr(str string) string {
 	return res[1]
 }
 
+// commentName is the command name in the comment line before a function, or empty if there is none.
+func commentName(line string) string {
+	if !strings.HasPrefix(line, "//") {
+		return ""
+	}
+
+	name := strings.TrimSpace(strings.TrimPrefix(strings.TrimSuffix(line, "."), "//"))
+	if strings.ContainsAny(name, " \t:") {
+		return "" // a sentence or a directive
+	}
+
+	return name
+}
+
 func noOp(f func() error) {
 	_ = f()
 }
-- 
2.43.0


From 1428254def10ceeb3525121adca0ecf0537f99d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:03 +0000
Subject: [PATCH 45/48] fix: the command generator left out functions with
 other names for themselves, their parameter or results

---
 cmd/gen_redis_cmd/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gen_redis_cmd/main.go b/cmd/gen_redis_cmd/main.go
index e6b5b72..d46c55c 100644
--- a/cmd/gen_redis_cmd/main.go
+++ b/cmd/gen_redis_cmd/main.go
@@ -115,7 +115,7 @@ func init() {
 var fNameRegex *regexp.Regexp
 
 func init() {
-	r, err := regexp.Compile(`func\s+([A-Za-z]+)\(c \*Command\)\s+\(\*protocol.Response,\s+error\)`)
+	r, err := regexp.Compile(`^func\s+(\w+)\(\w+ \*Command\)\s+\((?:\w+ )?\*protocol\.Response,\s+(?:\w+ )?error\)`)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From f6b07e1cbe828caa63d7608c3615df0135484939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:03 +0000
Subject: [PATCH 46/48] fix: the command generator registered functions inside
 comments

---
 cmd/gen_redis_cmd/main.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmd/gen_redis_cmd/main.go b/cmd/gen_redis_cmd/main.go
index d46c55c..a44e20e 100644
--- a/cmd/gen_redis_cmd/main.go
+++ b/cmd/gen_redis_cmd/main.go
@@ -52,9 +52,16 @@ func readAndParseFile(fp string) ([]KV, error) {
 	var (
 		scanner  = bufio.NewScanner(f)
 		lastLine string // for read func comment
+		inBlock  bool   // in a block comment
 	)
 
 	for scanner.Scan() {
+		if inBlock || strings.HasPrefix(strings.TrimSpace(scanner.Text()), "/*") {
+			inBlock = !strings.Contains(scanner.Text(), "*/")
+			lastLine = ""
+			continue
+		}
+
 		fName := regexCmdFuncStr(scanner.Text())
 		if fName != "" {
 			kv := KV{
-- 
2.43.0


From a9b610f7e01a8ee1030fa46b436c0d9d793e1313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:40 +0000
Subject: [PATCH 47/48] fix: a bulk string not followed by CRLF was accepted
 and the bytes after it taken for the next request

---
 protocol/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protocol/decode.go b/protocol/decode.go
index 3255cdb..9a3a88d 100644
--- a/protocol/decode.go
+++ b/protocol/decode.go
@@ -186,6 +186,9 @@ func (r *Receive) readBulkStrings(rr Reader, ln int) error {
 
 	// trim last \r\n
 	val := buf.String()
+	if val[ln:] != CRLF {
+		return fmt.Errorf("bulk string is not terminated by CRLF")
+	}
 	r.append(val[:ln], val)
 
 	return nil
-- 
2.43.0


From b10501f08656cb7ea3c8fedf0ea0009887b78a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:21 +0000
Subject: [PATCH 48/48] fix: the recorded text of a request held PING twice and
 the headers of nested arrays after their elements

---
 protocol/decode.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/protocol/decode.go b/protocol/decode.go
index 9a3a88d..01914bd 100644
--- a/protocol/decode.go
+++ b/protocol/decode.go
@@ -139,7 +139,7 @@ func (r *Receive) decodeSingleLine(line []byte) (length int, desc byte, err erro
 		//str = string(line[1 : len(line)-CRLFLen])
 	default:
 		if string(line) == "PING\r\n" {
-			r.append("PING", "PING\r\n")
+			r.append("PING", "")
 			return 0, DescriptionSimpleStrings, nil
 		}
 		return 0, 0, fmt.Errorf("unsupport protocol: %s", string(line))
@@ -205,17 +205,6 @@ func (r *Receive) readArray(rr Reader, ln, depth int) error {
 			return err
 		}
 
-		if line[0] == descriptionArrays {
-			subLn, subErr := readBulkOrArrayLength(line)
-			if subErr != nil {
-				return subErr
-			}
-
-			if subErr = r.readArray(rr, subLn, depth+1); subErr != nil {
-				return subErr
-			}
-		}
-
 		length, desc, err := r.decodeSingleLine(line)
 		if err != nil {
 			return err
@@ -228,6 +217,13 @@ func (r *Receive) readArray(rr Reader, ln, depth int) error {
 				return err
 			}
 		}
+
+		if desc == descriptionArrays {
+			err = r.readArray(rr, length, depth+1)
+			if err != nil {
+				return err
+			}
+		}
 	}
 
 	return nil
-- 
2.43.0


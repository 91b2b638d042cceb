From 2d900bcb22b9b2fc7edfcc420638c69f1a4c56da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:24 +0000
Subject: [PATCH 01/34] fix: decode 32 and 64-bit snapshot lengths and report
 truncated ones

---
 redis/rdb/rdb.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index 8ef7a55..e25bdb2 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -58,7 +58,7 @@ func LoadLen(reader *bufio.Reader) (length uint64, encoded bool, err error) {
 			num := binary.BigEndian.Uint16([]byte{buf[0] & 0x3F, buf[1]})
 			length = uint64(num)
 		} else {
-			panic("failed to load BitLen14")
+			return length, encoded, errors.New("failed to read 1 byte for BitLen14")
 		}
 	default:
 		// compare first byte
@@ -66,9 +66,10 @@ func LoadLen(reader *bufio.Reader) (length uint64, encoded bool, err error) {
 		case BitLen32:
 			logrus.Infoln("BitLen32")
 			buf = make([]byte, 4)
-			if n, err := io.ReadFull(reader, buf); err == nil && n == 4 {
+			var n int
+			if n, err = io.ReadFull(reader, buf); err == nil && n == 4 {
 				var lengthUint32 uint32
-				err = binary.Write(bytes.NewBuffer(buf), binary.LittleEndian, lengthUint32)
+				err = binary.Read(bytes.NewBuffer(buf), binary.BigEndian, &lengthUint32)
 				length = uint64(lengthUint32)
 			} else if n != 4 {
 				err = errors.New("failed to read 4 byte for BitLen32")
@@ -77,8 +78,9 @@ func LoadLen(reader *bufio.Reader) (length uint64, encoded bool, err error) {
 			logrus.Infoln("BitLen64")
 
 			buf = make([]byte, 8)
-			if n, err := io.ReadFull(reader, buf); err == nil && n == 8 {
-				err = binary.Write(bytes.NewBuffer(buf), binary.LittleEndian, length)
+			var n int
+			if n, err = io.ReadFull(reader, buf); err == nil && n == 8 {
+				err = binary.Read(bytes.NewBuffer(buf), binary.BigEndian, &length)
 			} else if n != 8 {
 				err = errors.New("failed to read 8 byte for BitLen64")
 			}
-- 
2.43.0


From fecd0c464bade53debf0b55c938f05b3cdf39e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:31 +0000
Subject: [PATCH 02/34] fix: LZF round trip of empty, tiny and incompressible
 strings

---
 redis/lzf/lzf.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/redis/lzf/lzf.go b/redis/lzf/lzf.go
index 731b30d..e8623d6 100644
--- a/redis/lzf/lzf.go
+++ b/redis/lzf/lzf.go
@@ -9,9 +9,15 @@ import (
 )
 
 func Compress(str string) string {
-	encoded := make([]byte, len(str))
-	input := []byte(str)
-	length := C.lzf_compress(unsafe.Pointer(&input[0]), C.uint(len(str)), unsafe.Pointer(&encoded[0]), C.uint(len(str)))
+	if len(str) == 0 {
+		return str
+	}
+
+	// room for incompressible input, which is stored as literal runs
+	encoded := make([]byte, len(str)+len(str)/16+16)
+	// lzf_compress looks one byte ahead
+	input := append([]byte(str), 0)
+	length := C.lzf_compress(unsafe.Pointer(&input[0]), C.uint(len(str)), unsafe.Pointer(&encoded[0]), C.uint(len(encoded)))
 	if length == 0 {
 		return str
 	}
@@ -20,11 +26,12 @@ func Compress(str string) string {
 }
 
 func DeCompress(str string, length int) string {
+	if len(str) == 0 || length <= 0 {
+		return ""
+	}
+
 	input := []byte(str)
 	var decoded = make([]byte, length)
 	dl := C.lzf_decompress(unsafe.Pointer(&input[0]), C.uint(len(input)), unsafe.Pointer(&decoded[0]), C.uint(length))
-	if dl == 0 {
-		return str
-	}
-	return string(decoded)
+	return string(decoded[:dl])
 }
-- 
2.43.0


From a1aa4a63c684a35c22853bd5693852b93e0126b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:31 +0000
Subject: [PATCH 03/34] fix: decode signed, long and damaged snapshot strings

---
 redis/rdb/rdb.go | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index e25bdb2..075e37a 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -9,7 +9,7 @@ import (
 	"github.com/liujiangwei/xxcache/redis/lzf"
 	"github.com/sirupsen/logrus"
 	"io"
-	"log"
+	"math"
 	"strconv"
 	"unsafe"
 )
@@ -92,6 +92,22 @@ func LoadLen(reader *bufio.Reader) (length uint64, encoded bool, err error) {
 	return length, encoded, err
 }
 
+// read exactly n bytes, memory only grows with the bytes really there
+func readBytes(reader *bufio.Reader, n uint64) ([]byte, error) {
+	if n > math.MaxInt64 {
+		return nil, errors.New(fmt.Sprintf("bad length [%d]", n))
+	}
+
+	var buf bytes.Buffer
+	if _, err := io.CopyN(&buf, reader, int64(n)); err == io.EOF {
+		return nil, io.ErrUnexpectedEOF
+	} else if err != nil {
+		return nil, err
+	}
+
+	return buf.Bytes(), nil
+}
+
 const EncInt8 = 0
 const EncInt16 = 1
 const EncInt32 = 2
@@ -122,18 +138,18 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 			}
 
 			num := binary.LittleEndian.Uint16(buf)
-			str = fmt.Sprintf("%d", num)
+			str = fmt.Sprintf("%d", int16(num))
 		case EncInt32:
 			// 4 byte
 			var buf = make([]byte, 4)
 			if n, err := io.ReadFull(reader, buf); err != nil {
-				log.Fatal(err)
+				return str, err
 			} else if n != 4 {
 				return str, errors.New("failed to read 4 bytes for EncInt32")
 			}
 			num := binary.LittleEndian.Uint32(buf)
 			//buf[0] | (buf[1] << 8) | (buf[2] << 16 | buf[3] << 24)
-			str = fmt.Sprintf("%d", num)
+			str = fmt.Sprintf("%d", int32(num))
 		case EncLzf:
 			var n uint64
 			// 解压前长度
@@ -148,14 +164,20 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 				return str, err
 			}
 
-			var c = make([]byte, n)
-			if n, err := io.ReadFull(reader, c); err != nil {
+			c, err := readBytes(reader, n)
+			if err != nil {
 				return str, err
-			} else if n != len(c) {
-				return str, errors.New(fmt.Sprintf("failed to read [%d] bytes for LoadString EncLzf", len(c)))
+			}
+
+			// 3 bytes of input give at most 264 bytes of output
+			if length > 264*n {
+				return str, errors.New(fmt.Sprintf("bad length [%d] for LoadString EncLzf", length))
 			}
 
 			str = lzf.DeCompress(string(c), int(length))
+			if uint64(len(str)) != length {
+				return "", errors.New("failed to decompress string for LoadString EncLzf")
+			}
 		default:
 			err = errors.New("failed decode string")
 		}
@@ -164,8 +186,8 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 		return str, err
 	}
 
-	buf := make([]byte, length)
-	if _, err := reader.Read(buf); err != nil {
+	buf, err := readBytes(reader, length)
+	if err != nil {
 		return str, err
 	}
 	str = string(buf)
-- 
2.43.0


From ac209aa0ce55502fa4ed7063fbc60abccfec7955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:32 +0000
Subject: [PATCH 04/34] fix: snapshot scores: binary doubles, infinities and
 NaN

---
 redis/rdb/rdb.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index 075e37a..ad7531b 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -200,10 +200,10 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 //RNegInf = -1.0/R_Zero;
 //RNan = R_Zero/R_Zero;
 // todo
-const RZero = float64(1.0)
-const RPosInf = 1.0 / RZero
-const RNegInf = -1.0 / RZero
-const RNan = RZero / RZero
+const RZero = float64(0.0)
+var RPosInf = math.Inf(1)
+var RNegInf = math.Inf(-1)
+var RNan = math.NaN()
 
 func LoadDouble(reader *bufio.Reader) (f float64, err error) {
 	var length byte
@@ -239,7 +239,7 @@ func LoadBinaryDouble(reader *bufio.Reader) (f float64, err error) {
 		return f, errors.New(fmt.Sprintf("failed to load [%d] bytes for LoadBinaryDouble", int(length)))
 	}
 
-	err = binary.Write(bytes.NewBuffer(buf), binary.LittleEndian, f)
+	err = binary.Read(bytes.NewBuffer(buf), binary.LittleEndian, &f)
 	return f, err
 }
 
-- 
2.43.0


From d7e4e77b319a1ddcea3a982a9c764ff2cea5e3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:33 +0000
Subject: [PATCH 05/34] fix: intset members are signed

---
 redis/intset/intset.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redis/intset/intset.go b/redis/intset/intset.go
index cbcbc88..84ca7c1 100644
--- a/redis/intset/intset.go
+++ b/redis/intset/intset.go
@@ -25,7 +25,7 @@ func Load(encoded string) (set []int64) {
 			end := 8 + 2*(i+1)
 
 			num := binary.LittleEndian.Uint16([]byte(encoded[start:end]))
-			set = append(set, int64(num))
+			set = append(set, int64(int16(num)))
 		}
 	case EncInt32:
 		for i := 0; i < int(length); i++ {
@@ -33,7 +33,7 @@ func Load(encoded string) (set []int64) {
 			end := 8 + 4*(i+1)
 
 			num := binary.LittleEndian.Uint32([]byte(encoded[start:end]))
-			set = append(set, int64(num))
+			set = append(set, int64(int32(num)))
 		}
 	case EncInt64:
 		for i := 0; i < int(length); i++ {
-- 
2.43.0


From 6470e1818ee1dc8bcf50c3bd7fe5aadefd2a89b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:33 +0000
Subject: [PATCH 06/34] fix: ziplist entry lengths, string offsets and integer
 entries

Lengths over 255 were computed in a byte, strings with a two or five byte
header were read from the wrong offset, and integer entries were returned as
their raw bytes (64-bit ones three bytes short).
---
 redis/ziplist/ziplist.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/redis/ziplist/ziplist.go b/redis/ziplist/ziplist.go
index efe70e9..fe196fe 100644
--- a/redis/ziplist/ziplist.go
+++ b/redis/ziplist/ziplist.go
@@ -83,7 +83,7 @@ func (iterator *Iterator) prevLength() (length, size uint32) {
 // length entry value length
 // size entry length size
 // str entry value
-func (iterator *Iterator) entry() (size, length uint32, str string) {
+func (iterator *Iterator) entry() (length, size uint32, str string) {
 	encoding := iterator.decode()
 	if encoding < ZipStrMask {
 		switch encoding {
@@ -93,11 +93,11 @@ func (iterator *Iterator) entry() (size, length uint32, str string) {
 		case ZipStr14b:
 			size = 2
 			//(len) = (((ptr)[0] & 0x3f) << 8) | (ptr)[1];
-			length = uint32((iterator.val[iterator.pos]&0x3f)<<8 | iterator.val[iterator.pos+1])
+			length = uint32(iterator.val[iterator.pos]&0x3f)<<8 | uint32(iterator.val[iterator.pos+1])
 		case ZipStr32b:
 			size = 5
 			pos := iterator.pos
-			length = uint32(iterator.val[pos+1]<<24 | iterator.val[pos+2]<<16 | iterator.val[pos+3]<<8 | iterator.val[pos+4])
+			length = uint32(iterator.val[pos+1])<<24 | uint32(iterator.val[pos+2])<<16 | uint32(iterator.val[pos+3])<<8 | uint32(iterator.val[pos+4])
 		default:
 			panic("failed to decode zip list item")
 		}
@@ -113,7 +113,7 @@ func (iterator *Iterator) entry() (size, length uint32, str string) {
 		case ZipInt32b:
 			length = 4
 		case ZipInt64b:
-			length = 5
+			length = 8
 		default:
 			if encoding >= ZipIntImmMin && encoding <= ZipIntImmMax {
 				val := (encoding & ZipIntImmMask) - 1
@@ -125,12 +125,26 @@ func (iterator *Iterator) entry() (size, length uint32, str string) {
 	}
 
 	if length > 0 {
-		str = iterator.val[iterator.pos+1 : iterator.pos+int(length)+1]
+		start := iterator.pos + int(size)
+		str = iterator.val[start : start+int(length)]
+		if encoding >= ZipStrMask {
+			str = strconv.FormatInt(integer(str), 10)
+		}
 	}
 
 	return length, size, str
 }
 
+// integer is the signed little endian number stored in the bytes of data
+func integer(data string) (num int64) {
+	for i := len(data) - 1; i >= 0; i-- {
+		num = num<<8 | int64(data[i])
+	}
+
+	shift := uint(64 - 8*len(data))
+	return num << shift >> shift
+}
+
 const ZipIntImmMin = 0xf1
 const ZipIntImmMax = 0xfd
 const ZipIntImmMask = 0x0f
-- 
2.43.0


From 792cb9fdceb4a147fdb9dcd6b3c38f78ef2ec84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:33 +0000
Subject: [PATCH 07/34] fix: zipmap iteration skipped a byte after every pair

The loops advanced once more than the layout does, the free length is always a
single byte, and Set left it out.
---
 redis/zipmap/zipmap.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/redis/zipmap/zipmap.go b/redis/zipmap/zipmap.go
index fcee6f9..b2dcc48 100644
--- a/redis/zipmap/zipmap.go
+++ b/redis/zipmap/zipmap.go
@@ -66,6 +66,8 @@ func (zm *zipMap) Set(key string, value string) error {
 		} else {
 			buf.WriteByte(uint8(len(value)))
 		}
+		// no free bytes after the value
+		buf.WriteByte(0)
 		//value
 		if n, err := buf.WriteString(value); err != nil {
 			return err
@@ -103,7 +105,7 @@ func (zm *zipMap) BlobLen() int {
 }
 
 func (zm *zipMap) Lookup(key string) (n int, ok bool) {
-	for i := 1; i < len(zm.value) && zm.value[i] != End; i++ {
+	for i := 1; i < len(zm.value) && zm.value[i] != End; {
 		// key length
 		kl := int(zm.value[i])
 		i++
@@ -130,10 +132,6 @@ func (zm *zipMap) Lookup(key string) (n int, ok bool) {
 		// value free length
 		vfl := int(zm.value[i])
 		i++
-		if vfl >= BigLen {
-			vfl = int(binary.LittleEndian.Uint32(zm.value[i : i+4]))
-			i += 4
-		}
 
 		// value
 		i += vl
@@ -159,7 +157,7 @@ func Len(key string, value string) int {
 
 func Load(encoded string) (hash map[string]string) {
 	hash = make(map[string]string, encoded[0])
-	for i := 1; i < len(encoded)-1; i++ {
+	for i := 1; i < len(encoded)-1; {
 		kl := uint32(encoded[i])
 		i++
 		if kl >= BigLen {
@@ -181,10 +179,6 @@ func Load(encoded string) (hash map[string]string) {
 		// value free length
 		vfl := uint32(encoded[i])
 		i++
-		if vfl >= BigLen {
-			vfl = binary.LittleEndian.Uint32([]byte(encoded[i : i+4]))
-			i += 4
-		}
 
 		// value
 		value := encoded[i : i+int(vl)]
-- 
2.43.0


From 11c9f9648417894d94d28352eb0bbd35f0c729e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:21 +0000
Subject: [PATCH 08/34] fix: keep the text of strings that only look numeric

"007", "1.50" or "1e3" were stored as numbers and read back differently.
---
 cache/cachestring.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index ce49c68..cf4c895 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -14,10 +14,11 @@ func (c *Cache) Set(key, value string) (string, error) {
 }
 
 func tryInt64(value string) interface{} {
-	if n, err := strconv.Atoi(value); err == nil {
+	// only when formatting the number gives the same text back
+	if n, err := strconv.Atoi(value); err == nil && strconv.Itoa(n) == value {
 		// try convert string value to int
 		return n
-	} else if f, err := strconv.ParseFloat(value, 64); err == nil {
+	} else if f, err := strconv.ParseFloat(value, 64); err == nil && strconv.FormatFloat(f, 'f', -1, 64) == value {
 		// try float
 		return f
 	}
-- 
2.43.0


From d1462abd36f149698425e4aa9fe50383987436c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:21 +0000
Subject: [PATCH 09/34] fix: IncrByFloat on counters and on numbers kept as
 text

---
 cache/cachestring.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index cf4c895..939dc52 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -290,6 +290,19 @@ func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 		f := float64(val) + increment
 		c.dataDict.Store(key, f)
 		return f, nil
+	case int64:
+		f := float64(val) + increment
+		c.dataDict.Store(key, f)
+		return f, nil
+	case string:
+		// a number in another notation, "1.50" or "1e3"
+		f, err := strconv.ParseFloat(val, 64)
+		if err != nil {
+			return 0, ErrWrongType
+		}
+		f += increment
+		c.dataDict.Store(key, f)
+		return f, nil
 	default:
 		return 0, ErrWrongType
 	}
-- 
2.43.0


From e9b453ee09e4bd9618f39859b40a72f954af2d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:31 +0000
Subject: [PATCH 10/34] fix: counters report overflow and count on after
 IncrByFloat

---
 cache/cache.go       |  1 +
 cache/cachestring.go | 17 ++++++++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index cf717fb..d8db33d 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -29,6 +29,7 @@ func (c *Cache) Cron() {
 
 var ErrKeyNil = errors.New("redis nil")
 var ErrWrongType = errors.New("wrong type,operation against a key holding the wrong kind of value")
+var ErrOverflow = errors.New("increment or decrement would overflow")
 var ErrOffsetOutOfRange = errors.New("offset is out of range")
 
 var OK = "OK"
diff --git a/cache/cachestring.go b/cache/cachestring.go
index 939dc52..5f7203a 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -1,6 +1,7 @@
 package cache
 
 import (
+	"math"
 	"strconv"
 	"time"
 )
@@ -247,6 +248,12 @@ func (c *Cache) incrBy(key string, increment int64) (int, error) {
 
 	var n int
 	var val interface{}
+	if f, ok := actual.(float64); ok {
+		// a float counter may hold an integer
+		if i, err := strconv.ParseInt(strconv.FormatFloat(f, 'f', -1, 64), 10, 64); err == nil {
+			actual = i
+		}
+	}
 	switch t := actual.(type) {
 	case uint64:
 		val = t + uint64(increment)
@@ -267,6 +274,11 @@ func (c *Cache) incrBy(key string, increment int64) (int, error) {
 		return 0, ErrWrongType
 	}
 
+	// the result does not fit
+	if old := n - int(increment); (increment > 0 && n < old) || (increment < 0 && n > old) {
+		return 0, ErrOverflow
+	}
+
 	c.dataDict.Store(key, val)
 
 	return n,nil
@@ -319,8 +331,11 @@ func (c *Cache) DecrBy(key string, decrement int64) (int, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
-	return c.incrBy(key, -decrement)
+	if decrement == math.MinInt64 {
+		return 0, ErrOverflow
+	}
 
+	return c.incrBy(key, -decrement)
 }
 
 func (c *Cache) MSet(kv map[string]string) (ok string) {
-- 
2.43.0


From d97324bcd6b5adc42966d4d053a45134083876e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:31 +0000
Subject: [PATCH 11/34] fix: lifetimes: overwrites drop them, every command
 honours them

Conditional writes, counters and Exists saw expired keys, Set, GetSet and MSet
left the old deadline on the new value, large lifetimes overflowed, and a
concurrent read could still return a value being expired.
---
 cache/cachedb.go     |  2 +-
 cache/cachestring.go | 24 +++++++++++++++---------
 cache/cacheutil.go   | 25 ++++++++++++++++---------
 3 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/cache/cachedb.go b/cache/cachedb.go
index b675204..fbacfaa 100644
--- a/cache/cachedb.go
+++ b/cache/cachedb.go
@@ -23,7 +23,7 @@ func (c *Cache) Flush() {
 
 func (c *Cache) Exists(keys ...string) (n int){
 	for _, key := range keys{
-		if _, ok := c.dataDict.Load(key); ok{
+		if _, ok := c.get(key); ok{
 			n++
 		}
 	}
diff --git a/cache/cachestring.go b/cache/cachestring.go
index 5f7203a..db3eb10 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -11,6 +11,7 @@ func (c *Cache) Set(key, value string) (string, error) {
 	defer c.lock.Unlock()
 
 	c.dataDict.Store(key, tryInt64(value))
+	c.expiresDict.Delete(key)
 	return OK, nil
 }
 
@@ -32,9 +33,10 @@ func (c *Cache) SetNX(key, value string) (int, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
-	if _, loaded := c.dataDict.LoadOrStore(key, tryInt64(value)); loaded {
+	if _, ok := c.get(key); ok {
 		return 0, nil
 	} else {
+		c.dataDict.Store(key, tryInt64(value))
 		return 1, nil
 	}
 }
@@ -45,7 +47,7 @@ func (c *Cache) SetEX(key, value string, expires int64) (string, error) {
 	defer c.lock.Unlock()
 
 	c.dataDict.Store(key, tryInt64(value))
-	c.expires(key, time.Second*time.Duration(expires))
+	c.expires(key, lifetime(expires, time.Second))
 
 	return OK, nil
 }
@@ -55,7 +57,7 @@ func (c *Cache) PSetEX(key, value string, expiresMs int64) (string, error) {
 	defer c.lock.Unlock()
 
 	c.dataDict.Store(key, tryInt64(value))
-	c.expires(key, time.Millisecond*time.Duration(expiresMs))
+	c.expires(key, lifetime(expiresMs, time.Millisecond))
 
 	return OK, nil
 }
@@ -106,6 +108,7 @@ func (c *Cache) GetSet(key, value string) (string, error) {
 	old, ok := c.get(key)
 
 	c.dataDict.Store(key, tryInt64(value))
+	c.expiresDict.Delete(key)
 
 	if !ok{
 		return "", ErrKeyNil
@@ -118,8 +121,8 @@ func (c *Cache) StrLen(key string) (int, error) {
 	c.lock.RLock()
 	defer c.lock.RUnlock()
 
-	val, ok := c.dataDict.Load(key)
-	if !ok || c.expired(key) {
+	val, ok := c.get(key)
+	if !ok {
 		return 0, nil
 	}
 
@@ -198,8 +201,8 @@ func (c *Cache) GetRange(key string, start, end int) (string, error) {
 	c.lock.RLock()
 	defer c.lock.RUnlock()
 
-	old, ok := c.dataDict.Load(key)
-	if !ok || c.expired(key) {
+	old, ok := c.get(key)
+	if !ok {
 		return "", nil
 	}
 	oldStr, err := fmtString(old)
@@ -241,8 +244,9 @@ func (c *Cache) IncrBy(key string, increment int64) (int, error) {
 }
 
 func (c *Cache) incrBy(key string, increment int64) (int, error) {
-	actual, ok := c.dataDict.LoadOrStore(key, increment)
+	actual, ok := c.get(key)
 	if !ok {
+		c.dataDict.Store(key, increment)
 		return int(increment), nil
 	}
 
@@ -288,8 +292,9 @@ func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
-	actual, ok := c.dataDict.LoadOrStore(key, increment)
+	actual, ok := c.get(key)
 	if !ok {
+		c.dataDict.Store(key, increment)
 		return increment, nil
 	}
 
@@ -344,6 +349,7 @@ func (c *Cache) MSet(kv map[string]string) (ok string) {
 
 	for k, v := range kv {
 		c.dataDict.Store(k, tryInt64(v))
+		c.expiresDict.Delete(k)
 	}
 
 	return OK
diff --git a/cache/cacheutil.go b/cache/cacheutil.go
index 78285c0..e98e0d5 100644
--- a/cache/cacheutil.go
+++ b/cache/cacheutil.go
@@ -1,6 +1,9 @@
 package cache
 
-import "time"
+import (
+	"math"
+	"time"
+)
 
 // if key is expired
 func (c *Cache) expired(key string) bool {
@@ -23,6 +26,15 @@ func (c *Cache) expired(key string) bool {
 	return expired
 }
 
+// n units, without overflow
+func lifetime(n int64, unit time.Duration) time.Duration {
+	if n > int64(math.MaxInt64/unit) {
+		return math.MaxInt64
+	}
+
+	return unit * time.Duration(n)
+}
+
 // set expire time after duration from now
 // if duration < 0, remove expire time
 func (c *Cache) expires(key string, duration time.Duration) {
@@ -34,15 +46,10 @@ func (c *Cache) expires(key string, duration time.Duration) {
 }
 
 func (c *Cache) get(key string) (value interface{},ok bool){
-	val, ok := c.dataDict.Load(key)
-	if !ok{
-		return val, ok
-	}
-
+	// a concurrent reader may be deleting the expired value, its deadline goes last
 	if c.expired(key) {
-		val = nil
-		ok = false
+		return nil, false
 	}
 
-	return val, ok
+	return c.dataDict.Load(key)
 }
\ No newline at end of file
-- 
2.43.0


From da94548d0cd7ada15d892551f77df78832de3f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:31 +0000
Subject: [PATCH 12/34] fix: the expiry sweep deleted every key

It ranged over the values and took each for a deadline in the past.
---
 cache/cachecron.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cache/cachecron.go b/cache/cachecron.go
index e9aaa43..e330032 100644
--- a/cache/cachecron.go
+++ b/cache/cachecron.go
@@ -6,10 +6,11 @@ import "time"
 func (c *Cache) cronExpire(duration time.Duration) {
 	for range time.NewTicker(duration).C{
 		c.lock.Lock()
-		c.dataDict.Range(func(key interface{}, value interface{}) bool {
+		c.expiresDict.Range(func(key interface{}, value interface{}) bool {
 			expire, ok := value.(time.Time)
 			if !ok{
 				c.expiresDict.Delete(key)
+				return true
 			}
 
 			if expire.Before(time.Now()){
-- 
2.43.0


From ec526423981ef5721e1d6d5d4197f1cc1630cd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:31 +0000
Subject: [PATCH 13/34] fix: GetSet on a hash overwrote it before failing

---
 cache/cachestring.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index db3eb10..5be6546 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -107,14 +107,18 @@ func (c *Cache) GetSet(key, value string) (string, error) {
 
 	old, ok := c.get(key)
 
+	var str string
+	var err = ErrKeyNil
+	if ok {
+		if str, err = fmtString(old); err != nil {
+			return "", err
+		}
+	}
+
 	c.dataDict.Store(key, tryInt64(value))
 	c.expiresDict.Delete(key)
 
-	if !ok{
-		return "", ErrKeyNil
-	}
-
-	return fmtString(old)
+	return str, err
 }
 
 func (c *Cache) StrLen(key string) (int, error) {
-- 
2.43.0


From c60348497d4d2fce3ae2558a7621dade74cae216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:31 +0000
Subject: [PATCH 14/34] fix: Type of a hash, and Type and Exists without the
 lock

---
 cache/cachedb.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cache/cachedb.go b/cache/cachedb.go
index fbacfaa..26b8550 100644
--- a/cache/cachedb.go
+++ b/cache/cachedb.go
@@ -22,6 +22,9 @@ func (c *Cache) Flush() {
 }
 
 func (c *Cache) Exists(keys ...string) (n int){
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	for _, key := range keys{
 		if _, ok := c.get(key); ok{
 			n++
@@ -32,13 +35,16 @@ func (c *Cache) Exists(keys ...string) (n int){
 }
 
 func (c *Cache)Type(key string) string {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	v, ok := c.get(key)
 	if !ok{
 		return "none"
 	}
 
 	switch v.(type) {
-	case hashEntry:
+	case *hashEntry:
 		return "hash"
 	default:
 		return "string"
-- 
2.43.0


From fbceed562596264ab17bba546aa435ddac76c020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:31 +0000
Subject: [PATCH 15/34] fix: MSet, MSetNX and MGet are atomic, MSetNX is all or
 nothing

---
 cache/cachestring.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index 5be6546..6291848 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -348,8 +348,8 @@ func (c *Cache) DecrBy(key string, decrement int64) (int, error) {
 }
 
 func (c *Cache) MSet(kv map[string]string) (ok string) {
-	//c.lock.Lock()
-	//defer c.lock.Unlock()
+	c.lock.Lock()
+	defer c.lock.Unlock()
 
 	for k, v := range kv {
 		c.dataDict.Store(k, tryInt64(v))
@@ -360,11 +360,17 @@ func (c *Cache) MSet(kv map[string]string) (ok string) {
 }
 
 func (c *Cache) MSetNX(kv map[string]string) int {
-	//c.lock.Lock()
-	//defer c.lock.Unlock()
+	c.lock.Lock()
+	defer c.lock.Unlock()
 
 	n := 0
 
+	for k := range kv {
+		if _, ok := c.get(k); ok {
+			return 0
+		}
+	}
+
 	for k, v := range kv {
 		if _, loaded := c.dataDict.LoadOrStore(k, tryInt64(v)); !loaded {
 			n++
@@ -375,8 +381,8 @@ func (c *Cache) MSetNX(kv map[string]string) int {
 }
 
 func (c *Cache) MGet(keys ...string) []interface{} {
-	//c.lock.RLock()
-	//defer c.lock.RUnlock()
+	c.lock.RLock()
+	defer c.lock.RUnlock()
 
 	var values = make([]interface{}, len(keys))
 	for id, k := range keys {
-- 
2.43.0


From 742e72ae9ac2a5e0073abccf503611b8123d1099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:31 +0000
Subject: [PATCH 16/34] fix: GetRange and SetRange with far away positions

GetRange counted up from a huge negative start, SetRange panicked on offsets
that cannot be allocated.
---
 cache/cache.go       | 4 ++++
 cache/cachestring.go | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/cache/cache.go b/cache/cache.go
index d8db33d..47c5cbc 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -30,6 +30,10 @@ func (c *Cache) Cron() {
 var ErrKeyNil = errors.New("redis nil")
 var ErrWrongType = errors.New("wrong type,operation against a key holding the wrong kind of value")
 var ErrOverflow = errors.New("increment or decrement would overflow")
+var ErrTooLong = errors.New("string exceeds maximum allowed size")
 var ErrOffsetOutOfRange = errors.New("offset is out of range")
 
 var OK = "OK"
+
+// longest string SetRange makes
+const MaxStringLen = 512 << 20
diff --git a/cache/cachestring.go b/cache/cachestring.go
index 6291848..8be88f5 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -165,6 +165,10 @@ func (c *Cache) SetRange(key string, pos int, replace string) (int, error) {
 		return 0, ErrOffsetOutOfRange
 	}
 
+	if pos > MaxStringLen-len(replace) {
+		return 0, ErrTooLong
+	}
+
 	// key is not exist or expired
 	old, ok := c.dataDict.Load(key)
 	if !ok || c.expired(key) {
@@ -217,6 +221,9 @@ func (c *Cache) GetRange(key string, start, end int) (string, error) {
 	if start < 0 {
 		start = len(oldStr) + start
 	}
+	if start < 0 {
+		start = 0
+	}
 	if end < 0 {
 		end = len(oldStr) + end
 	}
-- 
2.43.0


From 6632c9836ff40ab46775ba8f28a7893cd7ad34d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:05 +0000
Subject: [PATCH 17/34] fix: hash reads

HExists changed the length, HKeys, HVals and HGetAll panicked on an absent key,
HVals left out numbers, HGetAll wrote to a nil map, HSetNX kept numbers as text.
---
 cache/cachehash.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index b79a1ea..fed4a83 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -76,7 +76,7 @@ func (c *Cache) HSetNX(key string, field string, value string) (n int, err error
 		c.dataDict.Store(key, he)
 	}
 
-	if _, ok := he.LoadOrStore(field, value); !ok {
+	if _, ok := he.LoadOrStore(field, tryInt64(value)); !ok {
 		he.length++
 		n = 1
 	}
@@ -99,8 +99,6 @@ func (c *Cache) HExists(key string, field string) (n int, err error) {
 		n = 1
 	}
 
-	he.length -= n
-
 	return n, err
 }
 
@@ -298,6 +296,10 @@ func(c *Cache) HKeys(key string)(fields []string,err error){
 		return nil, err
 	}
 
+	if he == nil {
+		return nil, nil
+	}
+
 	 he.Range(func(key, value interface{}) bool {
 		if field, ok := key.(string); ok{
 			fields = append(fields, field)
@@ -315,9 +317,13 @@ func(c *Cache) HVals(key string)(values []string,err error){
 		return nil, err
 	}
 
+	if he == nil {
+		return nil, nil
+	}
+
 	he.Range(func(key, value interface{}) bool {
-		if field, ok := value.(string); ok{
-			values = append(values, field)
+		if v, err := fmtString(value); err == nil{
+			values = append(values, v)
 		}
 		return true
 	})
@@ -332,9 +338,14 @@ func(c *Cache) HGetAll(key string)(kv map[string]string,err error){
 		return nil, err
 	}
 
+	kv = make(map[string]string)
+	if he == nil {
+		return kv, nil
+	}
+
 	he.Range(func(key, value interface{}) bool {
 		if field, ok := key.(string); ok{
-			if v, err := fmtString(value); err != nil{
+			if v, err := fmtString(value); err == nil{
 				kv[field] = v
 			}
 		}
-- 
2.43.0


From 5a3ff79ce98c86041607f24ccd8715bac7734527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:05 +0000
Subject: [PATCH 18/34] fix: hash counters store the sum

They stored the increment, wrapped around on overflow and refused floats.
---
 cache/cachehash.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index fed4a83..1cbf3b9 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -193,8 +193,13 @@ func (c *Cache) HIncrBy(key, field string, increment int) (n int, err error){
 		err = ErrHashValueIsNotFloat
 	}
 
+	// the result does not fit
+	if old := n - increment; err == nil && ((increment > 0 && n < old) || (increment < 0 && n > old)) {
+		return 0, ErrOverflow
+	}
+
 	if err == nil{
-		he.set(field, strconv.Itoa(increment))
+		he.set(field, strconv.Itoa(n))
 	}
 
 	return n, err
@@ -223,9 +228,14 @@ func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, e
 	case string:
 		if val == ""{
 			f = increment
+		}else if f, err = strconv.ParseFloat(val, 64); err == nil{
+			// a number in another notation, "1.50" or "1e3"
+			f += increment
 		}else{
-			err = ErrHashValueIsNotFloat
+			f, err = 0, ErrHashValueIsNotFloat
 		}
+	case float64:
+		f = val + increment
 	case int:
 		f = float64(val) + increment
 	case int32:
@@ -241,7 +251,7 @@ func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, e
 	}
 
 	if err == nil{
-		he.set(field, strconv.FormatFloat(increment, 'f', -1, 64))
+		he.set(field, strconv.FormatFloat(f, 'f', -1, 64))
 	}
 
 	return f, err
-- 
2.43.0


From 6a5865c613b4c21bf979a683a1e3abf8441f34df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:05 +0000
Subject: [PATCH 19/34] fix: hash commands take the lock

---
 cache/cachehash.go | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index 1cbf3b9..0fc3b1e 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -51,6 +51,9 @@ func (c *Cache) getHashEntry(key string) (*hashEntry, error) {
 }
 
 func (c *Cache) HSet(key string, field string, value string) (n int, err error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -66,6 +69,9 @@ func (c *Cache) HSet(key string, field string, value string) (n int, err error)
 
 //HGET
 func (c *Cache) HSetNX(key string, field string, value string) (n int, err error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -86,6 +92,9 @@ func (c *Cache) HSetNX(key string, field string, value string) (n int, err error
 
 //HEXISTS
 func (c *Cache) HExists(key string, field string) (n int, err error) {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -104,6 +113,9 @@ func (c *Cache) HExists(key string, field string) (n int, err error) {
 
 //HDEL
 func (c *Cache) HDel(key string, fields ...string) (n int, err error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -129,6 +141,9 @@ func (c *Cache) HDel(key string, fields ...string) (n int, err error) {
 
 //HLEN
 func (c *Cache) HLen(key string) (n int, err error) {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -143,6 +158,9 @@ func (c *Cache) HLen(key string) (n int, err error) {
 
 //HSTRLEN
 func (c *Cache) HStrLen(key, field string) (n int, err error) {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil || he == nil {
 		return n, err
@@ -156,6 +174,9 @@ func (c *Cache) HStrLen(key, field string) (n int, err error) {
 }
 
 func (c *Cache) HIncrBy(key, field string, increment int) (n int, err error){
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return n, err
@@ -208,6 +229,9 @@ func (c *Cache) HIncrBy(key, field string, increment int) (n int, err error){
 var ErrHashValueIsNotFloat = errors.New("hash value is not a float")
 //HINCRBY
 func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, err error){
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return f, err
@@ -258,6 +282,9 @@ func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, e
 }
 //HMSET
 func (c *Cache) HMSet(key string, fv map[string]string) (n int, err error){
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return n, err
@@ -277,6 +304,9 @@ func (c *Cache) HMSet(key string, fv map[string]string) (n int, err error){
 
 //HMGET
 func (c *Cache)HMGet(key string, fields ...string) ([]interface{}, error) {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return nil, err
@@ -301,6 +331,9 @@ func (c *Cache)HMGet(key string, fields ...string) ([]interface{}, error) {
 
 //HKEYS
 func(c *Cache) HKeys(key string)(fields []string,err error){
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return nil, err
@@ -322,6 +355,9 @@ func(c *Cache) HKeys(key string)(fields []string,err error){
 
 //HVALS
 func(c *Cache) HVals(key string)(values []string,err error){
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return nil, err
@@ -343,6 +379,9 @@ func(c *Cache) HVals(key string)(values []string,err error){
 
 //HGETALL
 func(c *Cache) HGetAll(key string)(kv map[string]string,err error){
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return nil, err
@@ -367,6 +406,9 @@ func(c *Cache) HGetAll(key string)(kv map[string]string,err error){
 }
 //HSCAN
 func (c *Cache) HGet(key string, field string) (value string, err error) {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return value, err
-- 
2.43.0


From 3b20c1f7d54033f1b34b32316582c5af443bbaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:44 +0000
Subject: [PATCH 20/34] fix: replicated commands

A short SET and every RPUSH panicked, HMSET was accepted and dropped.
---
 cache/cache.go     |  1 +
 cache/cachelist.go |  2 +-
 cache/message.go   | 18 +++++++++++++++++-
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 47c5cbc..806ff28 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -30,6 +30,7 @@ func (c *Cache) Cron() {
 var ErrKeyNil = errors.New("redis nil")
 var ErrWrongType = errors.New("wrong type,operation against a key holding the wrong kind of value")
 var ErrOverflow = errors.New("increment or decrement would overflow")
+var ErrNotSupported = errors.New("command is not supported")
 var ErrTooLong = errors.New("string exceeds maximum allowed size")
 var ErrOffsetOutOfRange = errors.New("offset is out of range")
 
diff --git a/cache/cachelist.go b/cache/cachelist.go
index f1277e6..38789e2 100644
--- a/cache/cachelist.go
+++ b/cache/cachelist.go
@@ -23,7 +23,7 @@ func (c *Cache) LPushX(key string, values ...string) (int, error) {
 }
 
 func (c *Cache) RPush(key string, values ...string) (int, error) {
-	panic("implement me")
+	return 0, ErrNotSupported
 }
 
 func (c *Cache) RPushX(key string, values ...string) (int, error) {
diff --git a/cache/message.go b/cache/message.go
index d915d1f..b6a21aa 100644
--- a/cache/message.go
+++ b/cache/message.go
@@ -16,8 +16,19 @@ func HandleMessage(cache *Cache, message redis.Message) (err error) {
 		return errors.New("empty message")
 	}
 
+	for _, m := range messages {
+		switch m.(type) {
+		case nil, redis.NilMessage, redis.ErrorMessage, redis.ArrayMessage:
+			return errors.New("error redis message, need strings")
+		}
+	}
+
 	switch strings.ToLower(messages[0].String()) {
 	case "set":
+		if len(messages) != 3 {
+			return errors.New("set command args error")
+		}
+
 		_, err = cache.Set(messages[1].String(), messages[2].String())
 	case "rpush":
 		if len(messages) < 2 {
@@ -30,10 +41,15 @@ func HandleMessage(cache *Cache, message redis.Message) (err error) {
 		}
 		_, err = cache.RPush(messages[1].String(), values...)
 	case "hmset":
-		if len(messages) < 2 {
+		if len(messages) < 4 || len(messages)%2 != 0 {
 			return errors.New("hmset command args error")
 		}
 
+		var kv = make(map[string]string)
+		for i := 2; i < len(messages); i += 2 {
+			kv[messages[i].String()] = messages[i+1].String()
+		}
+		_, err = cache.HMSet(messages[1].String(), kv)
 	default:
 		return errors.New("unknown handled command," + message.Serialize())
 	}
-- 
2.43.0


From 5ca7187776b198082a4cf7bc6a6e00cba6d7b0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:25 +0000
Subject: [PATCH 21/34] fix: replies split by the transport, cut short or
 malformed

readMessage took whatever one Read returned, accepted replies ending at the end of
the stream, cut lines at the buffer size and panicked on negative lengths.
---
 redis/conn.go | 59 ++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 49 insertions(+), 10 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index f74639b..a098ba5 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -2,6 +2,7 @@ package redis
 
 import (
 	"bufio"
+	"bytes"
 	"context"
 	"errors"
 	"fmt"
@@ -96,11 +97,31 @@ func (c Conn) readBulkString(length int) string {
 }
 
 func (c Conn) discardEof() error {
-	_, _, err := c.Reader.ReadLine()
+	line, err := c.readLine()
+	if err == nil && len(line) > 0 {
+		err = errors.New("expected end of line")
+	}
 
 	return err
 }
 
+// readLine returns the bytes up to the next \r\n
+func (c Conn) readLine() ([]byte, error) {
+	line, err := c.Reader.ReadBytes('\n')
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+	if err != nil {
+		return nil, err
+	}
+
+	if !bytes.HasSuffix(line, []byte(MessageEOF)) {
+		return nil, errors.New("line does not end with CRLF")
+	}
+
+	return line[:len(line)-len(MessageEOF)], nil
+}
+
 // save message content to io reader
 func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 	protocol, err := c.readProtocol()
@@ -182,7 +203,7 @@ func (c Conn) readMessage() (Message, error) {
 	switch protocol {
 	case ProtocolBulkString:
 		// $1
-		bs, _, err := c.Reader.ReadLine()
+		bs, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
@@ -196,9 +217,16 @@ func (c Conn) readMessage() (Message, error) {
 			return NilMessage{}, nil
 		}
 
-		// read data
-		var data = make([]byte, length)
-		if _, err := c.Reader.Read(data); err != nil {
+		if length < 0 {
+			return nil, errors.New("invalid bulk string length")
+		}
+
+		// read data, memory grows with what arrives
+		var data bytes.Buffer
+		if _, err := io.CopyN(&data, c.Reader, int64(length)); err != nil {
+			if err == io.EOF {
+				err = io.ErrUnexpectedEOF
+			}
 			return nil, err
 		}
 
@@ -206,25 +234,25 @@ func (c Conn) readMessage() (Message, error) {
 			return nil, err
 		}
 
-		msg := NewBulkStringMessage(string(data))
+		msg := NewBulkStringMessage(data.String())
 
 		return msg, nil
 	case ProtocolSimpleString:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
 
 		return SimpleStringMessage(string(line)), nil
 	case ProtocolError:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
 		return ErrorMessage(string(line)), nil
 
 	case ProtocolInt:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
@@ -234,7 +262,7 @@ func (c Conn) readMessage() (Message, error) {
 			return IntMessage(number), nil
 		}
 	case ProtocolArray:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
@@ -243,9 +271,20 @@ func (c Conn) readMessage() (Message, error) {
 			return nil, err
 		}
 
+		if number == -1 {
+			return NilMessage{}, nil
+		}
+
+		if number < 0 {
+			return nil, errors.New("invalid array length")
+		}
+
 		var messages ArrayMessage
 		for i := 0; i < number; i++ {
 			if message, err := c.readMessage(); err != nil {
+				if err == io.EOF {
+					err = io.ErrUnexpectedEOF
+				}
 				return nil, err
 			} else {
 				messages = append(messages, message)
-- 
2.43.0


From eb602a8865c368843f1e934303630f36d12feeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:07 +0000
Subject: [PATCH 22/34] fix: a snapshot transfer reports a failing destination
 and a negative length

---
 redis/conn.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index a098ba5..a6bdba2 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -123,7 +123,7 @@ func (c Conn) readLine() ([]byte, error) {
 }
 
 // save message content to io reader
-func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
+func (c Conn) ReadWithWriter(writer io.Writer) (p Protocol, n int, err error) {
 	protocol, err := c.readProtocol()
 	if err != nil {
 		return protocol, 0, err
@@ -132,12 +132,14 @@ func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 	buf := bufio.NewWriter(writer)
 
 	defer func() {
-		_ = buf.Flush()
+		if e := buf.Flush(); err == nil {
+			err = e
+		}
 	}()
 
 	switch protocol {
 	case ProtocolBulkString:
-		bs, _, err := c.Reader.ReadLine()
+		bs, err := c.readLine()
 		if err != nil {
 			return ProtocolBulkString, 0, err
 		}
@@ -148,6 +150,10 @@ func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 			return ProtocolBulkString, 0, err
 		}
 
+		if length < 0 {
+			return ProtocolBulkString, 0, errors.New("invalid bulk string length")
+		}
+
 		for i := 0; i < length; i++ {
 			b, err := c.Reader.ReadByte()
 			if err != nil {
@@ -160,7 +166,7 @@ func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 
 		return ProtocolBulkString, length, nil
 	case ProtocolSimpleString:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return ProtocolSimpleString, 0, err
 		}
@@ -168,21 +174,21 @@ func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 
 		return ProtocolSimpleString, n, err
 	case ProtocolError:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return ProtocolError, 0, err
 		}
 		n, err := buf.Write(line)
 		return ProtocolError, n, err
 	case ProtocolInt:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return ProtocolInt, 0, err
 		}
 		n, err := buf.Write(line)
 		return ProtocolInt, n, err
 	case ProtocolArray:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return ProtocolArray, 0, err
 		}
-- 
2.43.0


From 2930b5718922b0a5712e7bd9fc9274c8efcecbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:07 +0000
Subject: [PATCH 23/34] fix: SetEX, PSetEX and IncrBy sent other commands

---
 redis/redis.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/redis/redis.go b/redis/redis.go
index 4d99e21..a2f7069 100644
--- a/redis/redis.go
+++ b/redis/redis.go
@@ -100,7 +100,7 @@ func (redis *Redis) SetNX(key, value string) (string, error) {
 
 func (redis *Redis) SetEX(key, value string, expires uint64) (string, error) {
 	rc := OKCommand{
-		BaseCommand: NewBaseCommand("SetNX", key, value, strconv.FormatUint(expires, 10)),
+		BaseCommand: NewBaseCommand("SetEX", key, strconv.FormatUint(expires, 10), value),
 	}
 	redis.process(&rc)
 	return rc.Result()
@@ -108,7 +108,7 @@ func (redis *Redis) SetEX(key, value string, expires uint64) (string, error) {
 
 func (redis *Redis) PSetEX(key, value string, expiresMs uint64) (string, error) {
 	rc := OKCommand{
-		BaseCommand: NewBaseCommand("SetNX", key, value, strconv.FormatUint(expiresMs, 10)),
+		BaseCommand: NewBaseCommand("PSetEX", key, strconv.FormatUint(expiresMs, 10), value),
 	}
 	redis.process(&rc)
 	return rc.Result()
@@ -175,7 +175,7 @@ func (redis *Redis) Incr(key string) (int, error) {
 
 func (redis *Redis) IncrBy(key string, increment int) (int, error) {
 	rc := IntCommand{
-		BaseCommand: NewBaseCommand("Incr", key, strconv.Itoa(increment)),
+		BaseCommand: NewBaseCommand("IncrBy", key, strconv.Itoa(increment)),
 	}
 	redis.process(&rc)
 
-- 
2.43.0


From 9da6616362283a593fb7af4333ed7ff7285d659c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:08 +0000
Subject: [PATCH 24/34] fix: client results reflect the reply

SetNX could only fail on its integer reply, OKCommand never returned OK, FloatCommand
dropped the number, replies of another kind were taken for zero values.
---
 redis/command.go | 24 ++++++++++++++++++++++++
 redis/redis.go   |  6 +++---
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/redis/command.go b/redis/command.go
index 7346c68..f49080d 100644
--- a/redis/command.go
+++ b/redis/command.go
@@ -16,6 +16,8 @@ type Command interface {
 	//set() bool
 }
 
+var errUnexpectedReply = errors.New("unexpected kind of reply")
+
 type BaseCommand struct {
 	Args []string
 	Err  error
@@ -41,6 +43,13 @@ type StringCommand struct {
 }
 
 func (cmd *StringCommand) Parse(message Message) {
+	switch message.Protocol() {
+	case ProtocolBulkString, ProtocolSimpleString:
+	default:
+		cmd.Err = errUnexpectedReply
+		return
+	}
+
 	cmd.Val = message.String()
 }
 
@@ -54,7 +63,14 @@ type FloatCommand struct {
 }
 
 func (cmd *FloatCommand) Parse(message Message) {
+	if message.Protocol() != ProtocolBulkString {
+		cmd.Err = errUnexpectedReply
+		return
+	}
+
 	if val, err := strconv.ParseFloat(message.String(), 64); err != nil {
+		cmd.Err = err
+	} else {
 		cmd.Val = val
 	}
 }
@@ -71,6 +87,8 @@ type IntCommand struct {
 func (i *IntCommand) Parse(message Message) {
 	if message, ok := message.(IntMessage); ok {
 		i.Val = int(message)
+	} else {
+		i.Err = errUnexpectedReply
 	}
 }
 
@@ -108,11 +126,15 @@ func (cmd *OKCommand) Parse(message Message) {
 	m, ok := message.(SimpleStringMessage)
 	if !ok {
 		cmd.Err = errors.New("failed parse redis data")
+		return
 	}
 
 	if m.String() != "OK" {
 		cmd.Err = errors.New(m.String())
+		return
 	}
+
+	cmd.Val = m.String()
 }
 
 func (cmd *OKCommand) Result() (string, error) {
@@ -135,5 +157,7 @@ func (i *InterfaceArrayCommand) Parse(message Message) {
 				i.Val = append(i.Val, m.String())
 			}
 		}
+	} else {
+		i.Err = errUnexpectedReply
 	}
 }
diff --git a/redis/redis.go b/redis/redis.go
index a2f7069..9f3f5d5 100644
--- a/redis/redis.go
+++ b/redis/redis.go
@@ -90,12 +90,12 @@ func (redis *Redis) Select(index int) (string, error) {
 	return rc.Result()
 }
 
-func (redis *Redis) SetNX(key, value string) (string, error) {
-	rc := OKCommand{
+func (redis *Redis) SetNX(key, value string) (int, error) {
+	rc := IntCommand{
 		BaseCommand: NewBaseCommand("SetNX", key, value),
 	}
 	redis.process(&rc)
-	return rc.Result()
+	return rc.Val, rc.Err
 }
 
 func (redis *Redis) SetEX(key, value string, expires uint64) (string, error) {
-- 
2.43.0


From 09678978cbb79e26201dc9488cbdc78ee1101035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:19 +0000
Subject: [PATCH 25/34] fix: the pool survives failed connections

Get kept the lock when connecting failed, broken connections and failed handshakes
went back into the pool or leaked, Close never returned.
---
 redis/conn.go | 21 +++++++++++++++++--
 redis/pool.go | 56 +++++++++++++++++++++++++++++++++++++++------------
 2 files changed, 62 insertions(+), 15 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index a6bdba2..4a07b20 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -19,6 +19,7 @@ type Conn struct {
 	Timeout      time.Duration
 	ReadTimeout  time.Duration
 	WriteTimeout time.Duration
+	err          error
 }
 
 func (c *Conn) WithTimeout(duration time.Duration) {
@@ -34,17 +35,28 @@ func (c *Conn) WithWriteTimeout(duration time.Duration) {
 }
 
 func (c *Conn) Recv() (Message, error) {
-	return c.readMessage()
+	message, err := c.readMessage()
+	if err != nil {
+		c.err = err
+	}
+
+	return message, err
 }
 
 func (c *Conn) Send(message Message) error {
 	_, err := c.Writer.Write([]byte(message.Serialize()))
 
 	if err != nil {
+		c.err = err
+		return err
+	}
+
+	if err := c.Writer.Flush(); err != nil {
+		c.err = err
 		return err
 	}
 
-	return c.Writer.Flush()
+	return nil
 }
 
 func (c *Conn) SendAndWaitReply(message Message) (Message, error) {
@@ -70,6 +82,11 @@ func (c *Conn) ExecCommand(ctx context.Context, command Command) {
 	}
 }
 
+// failed reports whether an exchange failed or left something behind
+func (c *Conn) failed() bool {
+	return c.err != nil || c.Reader.Buffered() > 0
+}
+
 func (c *Conn) Close() error {
 	return c.conn.Close()
 }
diff --git a/redis/pool.go b/redis/pool.go
index 13943ca..fdf7928 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -36,17 +36,13 @@ func (pool *Pool) Init(capacity int, addr string) {
 func (pool *Pool) Get(ctx context.Context) (*Conn, error) {
 	select {
 	case c := <-pool.connC:
-		return c, nil
+		return pool.open(c)
 	default:
 		// no conn available, try create new conn
 		pool.l.Lock()
 		if pool.size < pool.capacity {
-			conn, err := pool.create()
-			if err != nil {
-				return nil, err
-			}
 			pool.size++
-			pool.connC <- conn
+			pool.connC <- nil
 		}
 		pool.l.Unlock()
 	}
@@ -55,17 +51,33 @@ func (pool *Pool) Get(ctx context.Context) (*Conn, error) {
 	case <-ctx.Done():
 		return nil, errors.New("no connection available")
 	case c := <-pool.connC:
-		return c, nil
+		return pool.open(c)
 	}
 }
 
-func (pool Pool) create() (conn *Conn, err error) {
+// open connects the slot taken from the pool if it has no connection
+func (pool *Pool) open(conn *Conn) (*Conn, error) {
+	if conn != nil {
+		return conn, nil
+	}
+
+	conn, err := pool.create()
+	if err != nil {
+		pool.connC <- nil
+		return nil, err
+	}
+
+	return conn, nil
+}
+
+func (pool *Pool) create() (conn *Conn, err error) {
 	if conn, err = Connect(pool.addr); err != nil {
 		return conn, err
 	}
 
 	for _, handler := range pool.connOpenHandler {
 		if err := handler(conn); err != nil {
+			_ = conn.Close()
 			return conn, err
 		}
 	}
@@ -73,15 +85,35 @@ func (pool Pool) create() (conn *Conn, err error) {
 	return conn, err
 }
 
-func (pool Pool) Put(conn *Conn) {
+// Put returns a connection, the slot of a failed one is connected anew
+func (pool *Pool) Put(conn *Conn) {
 	if conn != nil {
+		if conn.failed() {
+			_ = conn.Close()
+			conn = nil
+		}
 		pool.connC <- conn
 	}
 }
 
 //Close close all conn opened in the pool
-func (pool Pool) Close() error {
-	for conn := range pool.connC {
+func (pool *Pool) Close() error {
+	pool.l.Lock()
+	defer pool.l.Unlock()
+
+	for {
+		var conn *Conn
+		select {
+		case conn = <-pool.connC:
+			pool.size--
+		default:
+			return nil
+		}
+
+		if conn == nil {
+			continue
+		}
+
 		for _, handler := range pool.connCloseHandler {
 			if err := handler(conn); err != nil {
 				return err
@@ -92,8 +124,6 @@ func (pool Pool) Close() error {
 			return err
 		}
 	}
-
-	return nil
 }
 
 func (pool *Pool) ExecCommand(ctx context.Context, command Command) {
-- 
2.43.0


From 1eec99888c3f73981f5fc0f3d1e5a8c6d5fe851b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:45 +0000
Subject: [PATCH 26/34] fix: the commands a snapshot is turned into

Lists came back reversed, hashes as sorted sets, sorted sets with score and member
swapped, absolute expiries as relative ones and those in seconds overflowed.
---
 redis/replication.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/redis/replication.go b/redis/replication.go
index 57142f0..9afe784 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -186,6 +186,7 @@ func (repl *Replication) Load() (err error) {
 	// start to load rdb file
 	var opCode uint
 	var expiresTime uint64
+	var expires bool
 	for err == nil {
 		// load op code first
 		if opCode, err = rdb.LoadOpCode(buf); err != nil {
@@ -199,13 +200,15 @@ func (repl *Replication) Load() (err error) {
 			if _, err = io.ReadFull(buf, expireS); err != nil {
 				return err
 			}
-			expiresTime = uint64(binary.LittleEndian.Uint32(expireS) * 1000)
+			expiresTime = uint64(binary.LittleEndian.Uint32(expireS)) * 1000
+			expires = true
 		case rdb.OpCodeExpireTimeMs:
 			var milliTime = make([]byte, 8)
 			if _, err = io.ReadFull(buf, milliTime); err != nil {
 				return err
 			}
 			expiresTime = binary.LittleEndian.Uint64(milliTime)
+			expires = true
 		case rdb.OpCodeFreq:
 			var lfu byte
 			if lfu, err = buf.ReadByte(); err != nil {
@@ -315,7 +318,7 @@ func (repl *Replication) Load() (err error) {
 				}
 
 				var value string
-				var args = []string{"lPush", key}
+				var args = []string{"rPush", key}
 				for ; length > 0; length-- {
 					if value, err = rdb.LoadString(buf); err != nil {
 						logrus.Warnln("failed to load TypeList value", err)
@@ -369,7 +372,6 @@ func (repl *Replication) Load() (err error) {
 						logrus.Warnln("failed to load TypeZSet, TypeZSet2 value", err)
 						return err
 					}
-					args = append(args, value)
 					if opCode == rdb.TypeZSet2 {
 						if score, err = rdb.LoadBinaryDouble(buf); err != nil {
 							logrus.Warnln("failed to load TypeZSet, TypeZSet2 value TypeZSet2", err)
@@ -382,7 +384,7 @@ func (repl *Replication) Load() (err error) {
 						}
 					}
 
-					args = append(args, strconv.FormatFloat(score, 'f', -1, 64))
+					args = append(args, strconv.FormatFloat(score, 'f', -1, 64), value)
 				}
 
 				cmd := NewBaseCommand(args...)
@@ -398,7 +400,7 @@ func (repl *Replication) Load() (err error) {
 					return err
 				}
 
-				var args = []string{"zAdd", key}
+				var args = []string{"hmSet", key}
 				var field, value string
 				for ; length > 0; length-- {
 					if field, err = rdb.LoadString(buf); err != nil {
@@ -480,7 +482,7 @@ func (repl *Replication) Load() (err error) {
 					var args = []string{"zAdd", key}
 					list := ziplist.Load(str)
 					for i := 0; i < len(list)/2; i++ {
-						args = append(args, list[2*i], list[2*i+1])
+						args = append(args, list[2*i+1], list[2*i])
 					}
 					cmd := NewBaseCommand(args...)
 					repl.Messages <- ReplicationMessage{
@@ -526,15 +528,15 @@ func (repl *Replication) Load() (err error) {
 				err = errors.New("TypeModule TypeModule2 unsupported now")
 			}
 
-			if expiresTime > 0 {
-				args := []string{"pExpire", key, strconv.Itoa(int(expiresTime))}
+			if expires {
+				args := []string{"pExpireAt", key, strconv.Itoa(int(expiresTime))}
 				cmd := NewBaseCommand(args...)
 				repl.Messages <- ReplicationMessage{
 					Database: repl.database,
 					Message:  cmd.Serialize(),
 					Offset:   0,
 				}
-				expiresTime = 0
+				expires = false
 			}
 		}
 	}
-- 
2.43.0


From 048a5cf7de0c3e8aeedea181a8cc231ee04d92af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:28 +0000
Subject: [PATCH 27/34] fix: damaged and unsupported snapshots are errors

Short reads of the header, unknown and unsupported records, lengths that are no
lengths and malformed encoded values were skipped over, panicked or looped.
---
 redis/intset/intset.go |   2 +
 redis/replication.go   | 107 ++++++++++++++++++++++++++++-------------
 redis/zipmap/zipmap.go |   7 ++-
 3 files changed, 82 insertions(+), 34 deletions(-)

diff --git a/redis/intset/intset.go b/redis/intset/intset.go
index 84ca7c1..51189ca 100644
--- a/redis/intset/intset.go
+++ b/redis/intset/intset.go
@@ -43,6 +43,8 @@ func Load(encoded string) (set []int64) {
 			num := binary.LittleEndian.Uint64([]byte(encoded[start:end]))
 			set = append(set, int64(num))
 		}
+	default:
+		panic("failed to decode int set")
 	}
 
 	return set
diff --git a/redis/replication.go b/redis/replication.go
index 9afe784..e04099b 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -178,11 +178,16 @@ func (repl *Replication) Load() (err error) {
 		return errors.New("failed to open rdb file," + err.Error())
 	}
 
+	defer file.Close()
+
 	buf := bufio.NewReader(file)
 	var version = make([]byte, 9)
-	if _, err = buf.Read(version); err != nil {
+	if _, err = io.ReadFull(buf, version); err != nil {
 		return err
 	}
+	if !strings.HasPrefix(string(version), "REDIS") {
+		return errors.New("not a rdb file")
+	}
 	// start to load rdb file
 	var opCode uint
 	var expiresTime uint64
@@ -217,7 +222,7 @@ func (repl *Replication) Load() (err error) {
 			logrus.Warnln("lfu", lfu)
 		case rdb.OpCodeIdle:
 			var lru uint64
-			if lru, _, err = rdb.LoadLen(buf); err != nil {
+			if lru, _, err = loadLen(buf); err != nil {
 				return err
 			}
 			logrus.Println("OpCodeIdle", lru)
@@ -225,7 +230,7 @@ func (repl *Replication) Load() (err error) {
 			logrus.Infoln("rdb done!!!")
 			return nil
 		case rdb.OpCodeSelectDB:
-			if index, _, err := rdb.LoadLen(buf); err != nil {
+			if index, _, err := loadLen(buf); err != nil {
 				return errors.New("OpCodeSelectDB error, " + err.Error())
 			} else {
 				repl.database = int(index)
@@ -233,10 +238,10 @@ func (repl *Replication) Load() (err error) {
 			}
 		case rdb.OpCodeResizeDB:
 			var dbSize, expiresSize uint64
-			if dbSize, _, err = rdb.LoadLen(buf); err != nil {
+			if dbSize, _, err = loadLen(buf); err != nil {
 				return err
 			}
-			if expiresSize, _, err = rdb.LoadLen(buf); err != nil {
+			if expiresSize, _, err = loadLen(buf); err != nil {
 				return err
 			}
 			logrus.Debugln("OpCodeResizeDB ignored", dbSize, expiresSize)
@@ -264,20 +269,20 @@ func (repl *Replication) Load() (err error) {
 			continue
 		case rdb.OpCodeModuleAux:
 			var moduleId, whenOpCode, when, eof uint64
-			if moduleId, _, err = rdb.LoadLen(buf); err != nil {
+			if moduleId, _, err = loadLen(buf); err != nil {
 				return err
 			}
-			if whenOpCode, _, err = rdb.LoadLen(buf); err != nil {
+			if whenOpCode, _, err = loadLen(buf); err != nil {
 				return err
 			} else if int(whenOpCode) != rdb.ModuleOpCodeUint {
 				return errors.New("ModuleOpCodeUint error")
 			}
 
-			if when, _, err = rdb.LoadLen(buf); err != nil {
+			if when, _, err = loadLen(buf); err != nil {
 				return err
 			}
 
-			if eof, _, err = rdb.LoadLen(buf); err != nil {
+			if eof, _, err = loadLen(buf); err != nil {
 				return err
 			} else if int(eof) != rdb.ModuleOpCodeEof {
 				return errors.New("ModuleOpCodeEof error")
@@ -312,7 +317,7 @@ func (repl *Replication) Load() (err error) {
 				}
 			case rdb.TypeList:
 				var length uint64
-				if length, _, err = rdb.LoadLen(buf); err != nil {
+				if length, _, err = loadLen(buf); err != nil {
 					logrus.Warnln("failed to load TypeList length", err)
 					return err
 				}
@@ -337,7 +342,7 @@ func (repl *Replication) Load() (err error) {
 
 			case rdb.TypeSet:
 				var length uint64
-				if length, _, err = rdb.LoadLen(buf); err != nil {
+				if length, _, err = loadLen(buf); err != nil {
 					logrus.Warnln("failed to load TypeSet length", err)
 					return err
 				}
@@ -358,7 +363,7 @@ func (repl *Replication) Load() (err error) {
 				}
 			case rdb.TypeZSet, rdb.TypeZSet2:
 				var length uint64
-				if length, _, err = rdb.LoadLen(buf); err != nil {
+				if length, _, err = loadLen(buf); err != nil {
 					logrus.Warnln("failed to load TypeZSet, TypeZSet2 length", err)
 					return err
 				}
@@ -395,7 +400,7 @@ func (repl *Replication) Load() (err error) {
 				}
 			case rdb.TypeHash:
 				var length uint64
-				if length, _, err = rdb.LoadLen(buf); err != nil {
+				if length, _, err = loadLen(buf); err != nil {
 					logrus.Warnln("failed to load TypeHash length", err)
 					return err
 				}
@@ -424,7 +429,7 @@ func (repl *Replication) Load() (err error) {
 				}
 			case rdb.TypeListQuickList:
 				var length uint64
-				if length, _, err = rdb.LoadLen(buf); err != nil {
+				if length, _, err = loadLen(buf); err != nil {
 					logrus.Warnln("failed to load TypeListQuickList length", err)
 					return err
 				}
@@ -435,7 +440,9 @@ func (repl *Replication) Load() (err error) {
 						logrus.Warnln("failed to load TypeListQuickList value", err)
 						return err
 					}
-					args = append(args, ziplist.Load(value)...)
+					if err = decode(func() { args = append(args, ziplist.Load(value)...) }); err != nil {
+						return err
+					}
 				}
 
 				cmd := NewBaseCommand(args...)
@@ -454,7 +461,10 @@ func (repl *Replication) Load() (err error) {
 				switch opCode {
 				case rdb.TypeHashZipMap:
 					var args = []string{"hmSet", key}
-					hash := zipmap.Load(str)
+					var hash map[string]string
+					if err = decode(func() { hash = zipmap.Load(str) }); err != nil {
+						return err
+					}
 					for field, value := range hash {
 						args = append(args, field, value)
 					}
@@ -467,7 +477,10 @@ func (repl *Replication) Load() (err error) {
 					}
 				case rdb.TypeSetIntSet:
 					var args = []string{"sAdd", key}
-					set := intset.Load(str)
+					var set []int64
+					if err = decode(func() { set = intset.Load(str) }); err != nil {
+						return err
+					}
 					for _, v := range set {
 						args = append(args, strconv.Itoa(int(v)))
 					}
@@ -480,7 +493,13 @@ func (repl *Replication) Load() (err error) {
 					}
 				case rdb.TypeZSetZipList:
 					var args = []string{"zAdd", key}
-					list := ziplist.Load(str)
+					var list []string
+					if err = decode(func() { list = ziplist.Load(str) }); err != nil {
+						return err
+					}
+					if len(list)%2 != 0 {
+						return errors.New("member without score")
+					}
 					for i := 0; i < len(list)/2; i++ {
 						args = append(args, list[2*i+1], list[2*i])
 					}
@@ -492,7 +511,13 @@ func (repl *Replication) Load() (err error) {
 					}
 				case rdb.TypeHashZipList:
 					var args = []string{"hmSet", key}
-					list := ziplist.Load(str)
+					var list []string
+					if err = decode(func() { list = ziplist.Load(str) }); err != nil {
+						return err
+					}
+					if len(list)%2 != 0 {
+						return errors.New("field without value")
+					}
 					args = append(args, list...)
 					cmd := NewBaseCommand(args...)
 					repl.Messages <- ReplicationMessage{
@@ -502,7 +527,10 @@ func (repl *Replication) Load() (err error) {
 					}
 				case rdb.TypeListZipList:
 					var args = []string{"rPush", key}
-					list := ziplist.Load(str)
+					var list []string
+					if err = decode(func() { list = ziplist.Load(str) }); err != nil {
+						return err
+					}
 					args = append(args, list...)
 					cmd := NewBaseCommand(args...)
 					repl.Messages <- ReplicationMessage{
@@ -512,20 +540,11 @@ func (repl *Replication) Load() (err error) {
 					}
 				}
 			case rdb.TypeStreamListPacks:
-				var length uint64
-				if length, _, err = rdb.LoadLen(buf); err != nil {
-					return err
-				}
-
-				for ; length > 0; length-- {
-					//if value, Err = rdb.LoadString(buf); Err != nil {
-					//	return Err
-					//}
-					//logrus.Infoln("TypeListQuickList", key, value)
-				}
-				err = errors.New("TypeStreamListPacks unsupported now")
+				return errors.New("TypeStreamListPacks unsupported now")
 			case rdb.TypeModule, rdb.TypeModule2:
-				err = errors.New("TypeModule TypeModule2 unsupported now")
+				return errors.New("TypeModule TypeModule2 unsupported now")
+			default:
+				return errors.New(fmt.Sprintf("unknown type %d", opCode))
 			}
 
 			if expires {
@@ -544,6 +563,28 @@ func (repl *Replication) Load() (err error) {
 	return nil
 }
 
+// loadLen reads a length, which is not the encoding of a string
+func loadLen(buf *bufio.Reader) (length uint64, encoded bool, err error) {
+	if length, encoded, err = rdb.LoadLen(buf); err == nil && encoded {
+		err = errors.New("bad length")
+	}
+
+	return length, encoded, err
+}
+
+// decode turns the panic of a decoder given a malformed value into an error
+func decode(decoder func()) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = errors.New(fmt.Sprint("malformed value, ", r))
+		}
+	}()
+
+	decoder()
+
+	return nil
+}
+
 type ReplicationMessage struct {
 	Database int
 	Message  Message
diff --git a/redis/zipmap/zipmap.go b/redis/zipmap/zipmap.go
index b2dcc48..f69372c 100644
--- a/redis/zipmap/zipmap.go
+++ b/redis/zipmap/zipmap.go
@@ -157,7 +157,8 @@ func Len(key string, value string) int {
 
 func Load(encoded string) (hash map[string]string) {
 	hash = make(map[string]string, encoded[0])
-	for i := 1; i < len(encoded)-1; {
+	i := 1
+	for i < len(encoded)-1 {
 		kl := uint32(encoded[i])
 		i++
 		if kl >= BigLen {
@@ -189,5 +190,9 @@ func Load(encoded string) (hash map[string]string) {
 		hash[key] = value
 	}
 
+	if i != len(encoded)-1 || encoded[i] != End {
+		panic("failed to decode zip map")
+	}
+
 	return hash
 }
-- 
2.43.0


From 6047d0578e42e5421620287dfc80ebd8a00441fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:32 +0000
Subject: [PATCH 28/34] fix: replicated commands keep the database of the last
 SELECT

Keys of other databases were applied to the first one, commands whose name starts
with ping were dropped.
---
 redis/replication.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/redis/replication.go b/redis/replication.go
index e04099b..9bf1ab0 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -74,6 +74,9 @@ func (repl *Replication) SyncWithRedis() error {
 }
 
 func (repl *Replication) WaitForMessage() {
+	// the database of the last select
+	var database int
+
 	for {
 		message, err := repl.conn.Recv()
 		if err != nil {
@@ -82,19 +85,40 @@ func (repl *Replication) WaitForMessage() {
 			return
 		}
 
-		if strings.HasPrefix(strings.ToLower(message.String()), "ping") {
+		if command(message) == "ping" {
 			repl.lastPing = time.Now()
 			continue
 		}
 
+		if args, ok := message.(ArrayMessage); ok && len(args) == 2 && command(message) == "select" {
+			if index, err := strconv.Atoi(args[1].String()); err != nil {
+				repl.Err <- err
+			} else {
+				database = index
+			}
+			continue
+		}
+
 		repl.Messages <- ReplicationMessage{
-			Database: 0,
+			Database: database,
 			Message:  message,
 			Offset:   0,
 		}
 	}
 }
 
+// command is the lower case name of the command in the message
+func command(message Message) string {
+	if args, ok := message.(ArrayMessage); ok {
+		if len(args) == 0 {
+			return ""
+		}
+		message = args[0]
+	}
+
+	return strings.ToLower(message.String())
+}
+
 func (repl *Replication) ack() error {
 	cmd := StringCommand{
 		BaseCommand: NewBaseCommand("ReplConf", "ack", strconv.Itoa(repl.Offset)),
-- 
2.43.0


From f85036b5152c73c2c108a8efc555f694210d6357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:33 +0000
Subject: [PATCH 29/34] fix: replication errors stall or crash the client

The goroutine draining the error channel sent to it, and applied nil messages for
ever once the link was gone.
---
 xxcache.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xxcache.go b/xxcache.go
index cd29f87..a088237 100644
--- a/xxcache.go
+++ b/xxcache.go
@@ -63,13 +63,19 @@ func New(option Option) (client Client, err error) {
 func (client *Client) handleReplication(repl redis.Replication) {
 	for {
 		select {
-		case message := <-repl.Messages:
+		case message, ok := <-repl.Messages:
+			if !ok {
+				// the link is gone, what is cached stays readable
+				repl.Messages = nil
+				continue
+			}
+
 			if message.Database != client.option.database {
 				continue
 			}
 
 			if err := cache.HandleMessage(client.cache, message.Message); err != nil {
-				repl.Err <- err
+				logrus.Warnln("repl error", err)
 			}
 		case err := <-repl.Err:
 			if err != nil {
-- 
2.43.0


From 5179f83c79acc5e46ba344df388f832ddb0fd8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:34 +0000
Subject: [PATCH 30/34] fix: Client.Get asks the master for keys that are not
 cached, as documented

---
 command.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/command.go b/command.go
index b33bdcd..6202982 100644
--- a/command.go
+++ b/command.go
@@ -1,6 +1,7 @@
 package xxcache
 
 import (
+	"github.com/liujiangwei/xxcache/cache"
 	"time"
 )
 
@@ -75,7 +76,12 @@ type HashCommand interface {
 }
 
 func (client Client) Get(key string) (string, error) {
-	return client.cache.Get(key)
+	val, err := client.cache.Get(key)
+	if err == cache.ErrKeyNil {
+		return client.redis.Get(key)
+	}
+
+	return val, err
 }
 
 func (client Client) Set(key string, value string) (string, error) {
-- 
2.43.0


From 8e462e1cbef90d8f2cf2629a0e04f72463bd4ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:37 +0000
Subject: [PATCH 31/34] fix: a new client had no cache, and took a refused sync
 for a snapshot

---
 redis/replication.go | 16 ++++++++++++++++
 xxcache.go           |  2 +-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/redis/replication.go b/redis/replication.go
index 9bf1ab0..0bc2a46 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -169,8 +169,24 @@ func (repl *Replication) sync() (err error) {
 		return errors.New("failed to open rdb file," + err.Error())
 	}
 
+	defer fp.Close()
+
+	// the master sends newlines until the payload is ready
+	for {
+		b, err := repl.conn.Reader.Peek(1)
+		if err != nil {
+			return errors.New("sync error," + err.Error())
+		}
+		if b[0] != '\n' {
+			break
+		}
+		_, _ = repl.conn.Reader.Discard(1)
+	}
+
 	if protocol, length, err := repl.conn.ReadWithWriter(fp); err != nil {
 		return errors.New("failed to save rdb file," + err.Error())
+	} else if protocol != ProtocolBulkString {
+		return errors.New("master refused to sync")
 	} else {
 		logrus.Infoln("redis rdb file", protocol, length, repl.RdbFile)
 	}
diff --git a/xxcache.go b/xxcache.go
index a088237..242c9cc 100644
--- a/xxcache.go
+++ b/xxcache.go
@@ -31,7 +31,7 @@ const redisRdbFile = "temp.rdb"
 func New(option Option) (client Client, err error) {
 	client.option = option
 
-	client.cache = new(cache.Cache)
+	client.cache = cache.New()
 	prepareOption(&option)
 
 	repl := redis.Replication{
-- 
2.43.0


From 544d30007863a2817e55c942c2e498afde97fd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:59 +0000
Subject: [PATCH 32/34] fix: compressed strings with string encodings for
 lengths are damaged

---
 redis/rdb/rdb.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index ad7531b..2e57063 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -153,16 +153,22 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 		case EncLzf:
 			var n uint64
 			// 解压前长度
-			n, _, err = LoadLen(reader)
+			n, encoded, err = LoadLen(reader)
 			if err != nil {
 				return
 			}
+			if encoded {
+				return str, errors.New("bad length for LoadString EncLzf")
+			}
 
 			// 解压后长度
-			length, _, err := LoadLen(reader)
+			length, encoded, err := LoadLen(reader)
 			if err != nil {
 				return str, err
 			}
+			if encoded {
+				return str, errors.New("bad length for LoadString EncLzf")
+			}
 
 			c, err := readBytes(reader, n)
 			if err != nil {
-- 
2.43.0


From 80a0ed4254b52db84c611c24878f8ef8451087c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:38 +0000
Subject: [PATCH 33/34] fix: an error reply to PING was taken for PONG when its
 text is the same

---
 redis/replication.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/replication.go b/redis/replication.go
index 0bc2a46..93d0cf5 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -147,7 +147,7 @@ func (repl *Replication) ping() error {
 	}
 	if message, err := repl.conn.SendAndWaitReply(cmd.Serialize()); err != nil {
 		return err
-	} else if message.String() != PONG.String() {
+	} else if message.Protocol() == ProtocolError || message.String() != PONG.String() {
 		err = errors.New(fmt.Sprintf("ping, receive %s from %s", message.String(), repl.MasterAddr))
 		return err
 	}
-- 
2.43.0


From 482cfe64551d567c0466d00087d5ddf880626331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:11 +0000
Subject: [PATCH 34/34] fix: deeply nested arrays from the peer no longer
 overflow the stack

---
 redis/conn.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index 4a07b20..3390c3c 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -35,7 +35,7 @@ func (c *Conn) WithWriteTimeout(duration time.Duration) {
 }
 
 func (c *Conn) Recv() (Message, error) {
-	message, err := c.readMessage()
+	message, err := c.readMessage(0)
 	if err != nil {
 		c.err = err
 	}
@@ -217,7 +217,11 @@ func (c Conn) ReadWithWriter(writer io.Writer) (p Protocol, n int, err error) {
 	}
 }
 
-func (c Conn) readMessage() (Message, error) {
+// deepest nesting of arrays a peer may send
+const maxNesting = 10000
+
+// readMessage reads a message that is inside of depth arrays
+func (c Conn) readMessage(depth int) (Message, error) {
 	protocol, err := c.readProtocol()
 	if err != nil {
 		return nil, err
@@ -302,9 +306,13 @@ func (c Conn) readMessage() (Message, error) {
 			return nil, errors.New("invalid array length")
 		}
 
+		if depth >= maxNesting {
+			return nil, errors.New("arrays are nested too deeply")
+		}
+
 		var messages ArrayMessage
 		for i := 0; i < number; i++ {
-			if message, err := c.readMessage(); err != nil {
+			if message, err := c.readMessage(depth + 1); err != nil {
 				if err == io.EOF {
 					err = io.ErrUnexpectedEOF
 				}
-- 
2.43.0


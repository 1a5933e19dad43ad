From 74f2521fa7bcb90c4bec291977072b0a754bdf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 01/38] fix: read the whole body of every binary reply

---
 client/server.go | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/client/server.go b/client/server.go
index 6a41d3e..5e6dec4 100644
--- a/client/server.go
+++ b/client/server.go
@@ -1300,6 +1300,7 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 	}
 
 	resHeader := s.resHeaderPool.Get().(*binaryResponseHeader)
+	var resErr error
 	for {
 		if err := resHeader.Read(s.conn); err != nil {
 			return nil, err
@@ -1308,18 +1309,21 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 			break
 		}
 
-		if resHeader.Status != 0 {
-			if v, ok := binaryStatus[resHeader.Status]; ok {
-				return nil, fmt.Errorf("memcached: error %s", v)
-			}
-			return nil, fmt.Errorf("memcached: unknown error %d", resHeader.Status)
-		}
-
 		buf := make([]byte, resHeader.TotalBodyLength)
 		if _, err := io.ReadFull(s.conn, buf); err != nil {
 			return nil, err
 		}
 
+		if resHeader.Status != 0 {
+			// The replies up to Noop still have to be read.
+			if v, ok := binaryStatus[resHeader.Status]; ok {
+				resErr = fmt.Errorf("memcached: error %s", v)
+			} else {
+				resErr = fmt.Errorf("memcached: unknown error %d", resHeader.Status)
+			}
+			continue
+		}
+
 		items = append(items, &Item{
 			Key:   string(buf[resHeader.ExtraLength : uint16(resHeader.ExtraLength)+resHeader.KeyLength]),
 			Value: buf[uint16(resHeader.ExtraLength)+resHeader.KeyLength:],
@@ -1327,6 +1331,9 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 		})
 	}
 
+	if resErr != nil {
+		return nil, resErr
+	}
 	return items, nil
 }
 
@@ -1365,6 +1372,9 @@ func (s *ServerWithBinaryProtocol) Set(item *Item) error {
 	if resHeader.Opcode != binaryOpcodeSet {
 		return errors.New("memcached: invalid response")
 	}
+	if _, err := io.CopyN(io.Discard, s.conn, int64(resHeader.TotalBodyLength)); err != nil {
+		return err
+	}
 
 	if resHeader.Status != 0 {
 		switch resHeader.Status {
@@ -1417,6 +1427,9 @@ func (s *ServerWithBinaryProtocol) Add(item *Item) error {
 	if resHeader.Opcode != binaryOpcodeAdd {
 		return errors.New("memcached: invalid response")
 	}
+	if _, err := io.CopyN(io.Discard, s.conn, int64(resHeader.TotalBodyLength)); err != nil {
+		return err
+	}
 
 	if resHeader.Status != 0 {
 		switch resHeader.Status {
@@ -1651,6 +1664,9 @@ func (s *ServerWithBinaryProtocol) Touch(key string, expiration int) error {
 	if err := resHeader.Read(s.conn); err != nil {
 		return err
 	}
+	if _, err := io.CopyN(io.Discard, s.conn, int64(resHeader.TotalBodyLength)); err != nil {
+		return err
+	}
 
 	if resHeader.Status != 0 {
 		if v, ok := binaryStatus[resHeader.Status]; ok {
@@ -1692,6 +1708,9 @@ func (s *ServerWithBinaryProtocol) Flush() error {
 	if resHeader.Opcode != binaryOpcodeFlush {
 		return errors.New("memcached: invalid response")
 	}
+	if _, err := io.CopyN(io.Discard, s.conn, int64(resHeader.TotalBodyLength)); err != nil {
+		return err
+	}
 
 	return nil
 }
@@ -1722,6 +1741,11 @@ func (s *ServerWithBinaryProtocol) Version() (string, error) {
 		return "", err
 	}
 
+	buf := make([]byte, resHeader.TotalBodyLength)
+	if _, err := io.ReadFull(s.conn, buf); err != nil {
+		return "", err
+	}
+
 	if resHeader.Status != 0 {
 		if v, ok := binaryStatus[resHeader.Status]; ok {
 			return "", fmt.Errorf("memcached: error %s", v)
@@ -1729,11 +1753,6 @@ func (s *ServerWithBinaryProtocol) Version() (string, error) {
 		return "", fmt.Errorf("memcached: unknown error %d", resHeader.Status)
 	}
 
-	buf := make([]byte, resHeader.TotalBodyLength)
-	if _, err := io.ReadFull(s.conn, buf); err != nil {
-		return "", err
-	}
-
 	return string(buf), nil
 }
 
-- 
2.43.0


From d15d37f663791483dd71e68bad6fd30989e0b392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 02/38] fix: report a refused flush of the binary protocol
 client

---
 client/server.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client/server.go b/client/server.go
index 5e6dec4..0bf4d52 100644
--- a/client/server.go
+++ b/client/server.go
@@ -1712,6 +1712,13 @@ func (s *ServerWithBinaryProtocol) Flush() error {
 		return err
 	}
 
+	if resHeader.Status != 0 {
+		if v, ok := binaryStatus[resHeader.Status]; ok {
+			return fmt.Errorf("memcached: error %s", v)
+		}
+		return fmt.Errorf("memcached: unknown error %d", resHeader.Status)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From d1852210413c8a6eed164eba6f99ed6c006a2cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 03/38] fix: do not send the CAS value of an earlier request
 with a binary increment

---
 client/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/server.go b/client/server.go
index 0bf4d52..1cf357f 100644
--- a/client/server.go
+++ b/client/server.go
@@ -1581,6 +1581,7 @@ func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int
 	binary.BigEndian.PutUint32(extra[16:20], uint32(expiration))
 	header := s.reqHeaderPool.Get().(*binaryRequestHeader)
 	defer s.reqHeaderPool.Put(header)
+	header.Reset()
 
 	header.Opcode = opcode
 	header.KeyLength = uint16(len(key))
-- 
2.43.0


From 15ef96e9691a4b29abf05bff2ab835c83b26fc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 04/38] fix: read all replies of a meta protocol multi-get when
 keys are missing

---
 client/server.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/client/server.go b/client/server.go
index 1cf357f..53fcd8f 100644
--- a/client/server.go
+++ b/client/server.go
@@ -40,6 +40,9 @@ var (
 	msgMetaProtoDeleted   = []byte("HD")
 	msgMetaProtoExists    = []byte("EX")
 	msgMetaProtoNotFound  = []byte("NF")
+
+	errMetaNoop               = errors.New("memcached: unexpected response to noop")
+	errMetaInvalidGetResponse = errors.New("memcached: invalid get response")
 )
 
 var (
@@ -742,13 +745,20 @@ func (s *ServerWithMetaProtocol) GetMulti(keys ...string) ([]*Item, error) {
 		return nil, err
 	}
 
+	var resErr error
 MultiRead:
 	for {
 		item, err := s.parseGetResponse(s.conn)
 		if err != nil {
 			switch err {
 			case merrors.ItemNotFound:
+				continue
+			case errMetaNoop:
 				break MultiRead
+			case errMetaInvalidGetResponse:
+				// The replies up to MN still have to be read.
+				resErr = err
+				continue
 			default:
 				return nil, err
 			}
@@ -756,6 +766,9 @@ MultiRead:
 		items = append(items, item)
 	}
 
+	if resErr != nil {
+		return nil, resErr
+	}
 	return items, nil
 }
 
@@ -764,14 +777,14 @@ func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item
 	if err != nil {
 		return nil, err
 	}
-	if bytes.Equal(b, msgMetaProtoEnd) {
+	if bytes.Equal(b, msgMetaProtoEnd) || bytes.HasPrefix(b, []byte("EN ")) {
 		return nil, merrors.ItemNotFound
 	}
 	if bytes.Equal(b, msgMetaProtoNoop) {
-		return nil, merrors.ItemNotFound
+		return nil, errMetaNoop
 	}
 	if !bytes.HasPrefix(b, []byte("VA")) {
-		return nil, errors.New("memcached: invalid get response")
+		return nil, errMetaInvalidGetResponse
 	}
 
 	item := &Item{}
-- 
2.43.0


From 01ae5b0dfee1bc861f3c3e03881d3188afaf302e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 05/38] fix: parse the flags and the CAS value of a meta get
 response as unsigned

---
 client/server.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/client/server.go b/client/server.go
index 53fcd8f..1ddb288 100644
--- a/client/server.go
+++ b/client/server.go
@@ -841,7 +841,7 @@ func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item
 func (s *ServerWithMetaProtocol) readGetFlagToken(flagName byte, v []byte, item *Item) error {
 	switch flagName {
 	case 'f':
-		in, err := strconv.ParseInt(string(v), 10, 32)
+		in, err := strconv.ParseUint(string(v), 10, 32)
 		if err != nil {
 			return err
 		}
@@ -849,11 +849,11 @@ func (s *ServerWithMetaProtocol) readGetFlagToken(flagName byte, v []byte, item
 		binary.BigEndian.PutUint32(f, uint32(in))
 		item.Flags = f
 	case 'c':
-		in, err := strconv.ParseInt(string(v), 10, 64)
+		in, err := strconv.ParseUint(string(v), 10, 64)
 		if err != nil {
 			return err
 		}
-		item.Cas = uint64(in)
+		item.Cas = in
 	case 't':
 		in, err := strconv.ParseInt(string(v), 10, 32)
 		if err != nil {
-- 
2.43.0


From 0a60be2bf4ea71d1883dfb2f79435387131bd74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 06/38] fix: multi-get returns CAS values, and text get reads
 keys with any character

---
 client/server.go | 49 +++++++++++-------------------------------------
 1 file changed, 11 insertions(+), 38 deletions(-)

diff --git a/client/server.go b/client/server.go
index 1ddb288..436346d 100644
--- a/client/server.go
+++ b/client/server.go
@@ -27,9 +27,6 @@ var (
 	msgTextProtoExists   = []byte("EXISTS\r\n")
 	msgTextProtoOk       = []byte("OK\r\n")
 	msgTextProtoEnd      = []byte("END\r\n")
-
-	valueFormatWithCas = "VALUE %s %d %d %d"
-	valueFormat        = "VALUE %s %d %d"
 )
 
 var (
@@ -217,45 +214,15 @@ func (s *ServerWithTextProtocol) Get(key string) (*Item, error) {
 	if err := s.conn.Flush(); err != nil {
 		return nil, err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	items, err := s.parseGetResponse(s.conn.Reader)
 	if err != nil {
 		return nil, err
 	}
-	if bytes.Equal(b, msgTextProtoEnd) {
+	if len(items) == 0 {
 		return nil, merrors.ItemNotFound
 	}
-	if !bytes.HasPrefix(b, []byte("VALUE")) {
-		return nil, errors.New("memcached: invalid response")
-	}
-	item := &Item{Server: s.Name()}
-	size := 0
-	p := valueFormatWithCas
-	var flags uint32
-	scan := []interface{}{&item.Key, &flags, &size, &item.Cas}
-	if bytes.Count(b, []byte(" ")) == 3 {
-		p = valueFormat
-		scan = scan[:3]
-	}
-	if _, err := fmt.Fscanf(bytes.NewReader(b), p, scan...); err != nil {
-		return nil, err
-	}
-	f := make([]byte, 4)
-	binary.BigEndian.PutUint32(f, flags)
-	item.Flags = f
-
-	buf := make([]byte, size+2)
-	if _, err := io.ReadFull(s.conn, buf); err != nil {
-		return nil, err
-	}
-	item.Value = buf[:size]
-
-	b, err = s.conn.ReadSlice('\n')
-	if err != nil {
-		return nil, err
-	}
-	if !bytes.Equal(b, msgTextProtoEnd) {
-		return nil, errors.New("memcached: invalid response")
-	}
+	item := items[0]
+	item.Server = s.Name()
 
 	return item, nil
 }
@@ -299,7 +266,7 @@ func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, err
 		if err != nil {
 			return nil, err
 		}
-		if bytes.Equal(b, []byte("END\r\n")) {
+		if bytes.Equal(b, msgTextProtoEnd) {
 			break
 		}
 		s := bytes.Split(b, []byte(" "))
@@ -315,10 +282,14 @@ func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, err
 		binary.BigEndian.PutUint32(flags, uint32(f))
 
 		var size int
+		var cas uint64
 		if len(s) == 4 {
 			size, err = strconv.Atoi(string(s[3][:len(s[3])-2]))
 		} else {
 			size, err = strconv.Atoi(string(s[3]))
+			if err == nil {
+				cas, err = strconv.ParseUint(string(s[4][:len(s[4])-2]), 10, 64)
+			}
 		}
 		if err != nil {
 			return nil, err
@@ -328,6 +299,7 @@ func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, err
 		item := &Item{
 			Key:   string(s[1]),
 			Flags: flags,
+			Cas:   cas,
 		}
 		if _, err := io.ReadFull(r, buf); err != nil {
 			return nil, err
@@ -1341,6 +1313,7 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 			Key:   string(buf[resHeader.ExtraLength : uint16(resHeader.ExtraLength)+resHeader.KeyLength]),
 			Value: buf[uint16(resHeader.ExtraLength)+resHeader.KeyLength:],
 			Flags: buf[:resHeader.ExtraLength],
+			Cas:   resHeader.CAS,
 		})
 	}
 
-- 
2.43.0


From e07536ead4c9b883f350ae57745fe16d2243b54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 07/38] fix: text and meta add and replace report server errors
 as such

---
 client/server.go | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/client/server.go b/client/server.go
index 436346d..5f6815b 100644
--- a/client/server.go
+++ b/client/server.go
@@ -27,6 +27,8 @@ var (
 	msgTextProtoExists   = []byte("EXISTS\r\n")
 	msgTextProtoOk       = []byte("OK\r\n")
 	msgTextProtoEnd      = []byte("END\r\n")
+
+	msgTextProtoNotStored = []byte("NOT_STORED\r\n")
 )
 
 var (
@@ -499,11 +501,14 @@ func (s *ServerWithTextProtocol) Add(item *Item) error {
 	if err != nil {
 		return err
 	}
-	if bytes.Equal(b, msgTextProtoStored) {
+	switch {
+	case bytes.Equal(b, msgTextProtoStored):
 		return nil
+	case bytes.Equal(b, msgTextProtoNotStored):
+		return merrors.ItemExists
+	default:
+		return fmt.Errorf("memcached: failed add: %s", string(b))
 	}
-
-	return merrors.ItemExists
 }
 
 func (s *ServerWithTextProtocol) Replace(item *Item) error {
@@ -536,11 +541,14 @@ func (s *ServerWithTextProtocol) Replace(item *Item) error {
 	if err != nil {
 		return err
 	}
-	if bytes.Equal(b, msgTextProtoStored) {
+	switch {
+	case bytes.Equal(b, msgTextProtoStored):
 		return nil
+	case bytes.Equal(b, msgTextProtoNotStored):
+		return merrors.ItemNotFound
+	default:
+		return fmt.Errorf("memcached: failed replace: %s", string(b))
 	}
-
-	return merrors.ItemNotFound
 }
 
 func (s *ServerWithTextProtocol) Flush() error {
@@ -913,11 +921,14 @@ func (s *ServerWithMetaProtocol) Add(item *Item) error {
 	if err != nil {
 		return err
 	}
-	if bytes.Equal(b, msgTextProtoStored) {
+	switch {
+	case bytes.Equal(b, msgTextProtoStored):
 		return nil
+	case bytes.Equal(b, msgTextProtoNotStored):
+		return merrors.ItemExists
+	default:
+		return fmt.Errorf("memcached: failed add: %s", string(b))
 	}
-
-	return merrors.ItemExists
 }
 
 func (s *ServerWithMetaProtocol) Replace(item *Item) error {
@@ -947,11 +958,14 @@ func (s *ServerWithMetaProtocol) Replace(item *Item) error {
 	if err != nil {
 		return err
 	}
-	if bytes.Equal(b, msgTextProtoStored) {
+	switch {
+	case bytes.Equal(b, msgTextProtoStored):
 		return nil
+	case bytes.Equal(b, msgTextProtoNotStored):
+		return merrors.ItemNotFound
+	default:
+		return fmt.Errorf("memcached: failed replace: %s", string(b))
 	}
-
-	return merrors.ItemNotFound
 }
 
 func (s *ServerWithMetaProtocol) Delete(key string) error {
-- 
2.43.0


From 0cabb13b9576f7ad74f113c83ac47fc9e55e7bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 08/38] fix: text delete and touch do not report refused
 requests as success

---
 client/server.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/client/server.go b/client/server.go
index 5f6815b..63a3352 100644
--- a/client/server.go
+++ b/client/server.go
@@ -342,8 +342,9 @@ func (s *ServerWithTextProtocol) Delete(key string) error {
 		return nil
 	case bytes.Equal(b, msgTextProtoNotFound):
 		return merrors.ItemNotFound
+	default:
+		return fmt.Errorf("memcached: failed delete: %s", string(b))
 	}
-	return nil
 }
 
 func (s *ServerWithTextProtocol) Increment(key string, delta, _ int) (int64, error) {
@@ -419,9 +420,9 @@ func (s *ServerWithTextProtocol) Touch(key string, expiration int) error {
 		return nil
 	case bytes.Equal(b, msgTextProtoNotFound):
 		return merrors.ItemNotFound
+	default:
+		return fmt.Errorf("memcached: failed touch: %s", string(b))
 	}
-
-	return nil
 }
 
 func (s *ServerWithTextProtocol) Set(item *Item) error {
-- 
2.43.0


From c6b3f12fec13bc0c6e18dacf5d969499a7d0dc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 09/38] fix: report a missing key as ItemNotFound from
 compare-and-swap, binary increment and binary touch

---
 client/server.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/client/server.go b/client/server.go
index 63a3352..32d5274 100644
--- a/client/server.go
+++ b/client/server.go
@@ -467,6 +467,8 @@ func (s *ServerWithTextProtocol) Set(item *Item) error {
 		return nil
 	case bytes.Equal(buf, msgTextProtoExists):
 		return merrors.ItemExists
+	case bytes.Equal(buf, msgTextProtoNotFound):
+		return merrors.ItemNotFound
 	default:
 		return fmt.Errorf("memcached: failed set: %s", string(buf))
 	}
@@ -1379,6 +1381,8 @@ func (s *ServerWithBinaryProtocol) Set(item *Item) error {
 
 	if resHeader.Status != 0 {
 		switch resHeader.Status {
+		case 1: // key not found
+			return merrors.ItemNotFound
 		case 2: // key exists
 			return merrors.ItemExists
 		default:
@@ -1617,6 +1621,9 @@ func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int
 		body = buf
 	}
 
+	if resHeader.Status == 1 { // key not found
+		return 0, merrors.ItemNotFound
+	}
 	if resHeader.Status != 0 {
 		if v, ok := binaryStatus[resHeader.Status]; ok {
 			additional := ""
@@ -1670,6 +1677,9 @@ func (s *ServerWithBinaryProtocol) Touch(key string, expiration int) error {
 		return err
 	}
 
+	if resHeader.Status == 1 { // key not found
+		return merrors.ItemNotFound
+	}
 	if resHeader.Status != 0 {
 		if v, ok := binaryStatus[resHeader.Status]; ok {
 			return fmt.Errorf("memcached: error %s", v)
-- 
2.43.0


From 8dd9ab181db5b7064963639d98ef74cb4dc97451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 10/38] fix: meta touch changes the expiration only instead of
 marking the item stale

---
 client/server.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/client/server.go b/client/server.go
index 32d5274..0dd85ac 100644
--- a/client/server.go
+++ b/client/server.go
@@ -37,6 +37,7 @@ var (
 	msgMetaProtoStored    = []byte("HD")
 	msgMetaProtoNotStored = []byte("NS")
 	msgMetaProtoDeleted   = []byte("HD")
+	msgMetaProtoTouched   = []byte("HD")
 	msgMetaProtoExists    = []byte("EX")
 	msgMetaProtoNotFound  = []byte("NF")
 
@@ -1056,7 +1057,7 @@ func (s *ServerWithMetaProtocol) Touch(key string, expiration int) error {
 		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
 	}
 
-	if _, err := fmt.Fprintf(s.conn, "md %s I T%d\r\n", key, expiration); err != nil {
+	if _, err := fmt.Fprintf(s.conn, "mg %s T%d\r\n", key, expiration); err != nil {
 		return err
 	}
 	if err := s.conn.Flush(); err != nil {
@@ -1069,8 +1070,10 @@ func (s *ServerWithMetaProtocol) Touch(key string, expiration int) error {
 	}
 
 	switch {
-	case bytes.HasPrefix(b, msgMetaProtoDeleted):
+	case bytes.HasPrefix(b, msgMetaProtoTouched):
 		return nil
+	case bytes.Equal(b, msgMetaProtoEnd):
+		return merrors.ItemNotFound
 	default:
 		return errors.New("memcached: failed touch")
 	}
-- 
2.43.0


From 7cd2a25e33668456458658098216e2c6ce6ab9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 11/38] fix: text and meta version do not take an error reply
 for a version

---
 client/server.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/client/server.go b/client/server.go
index 0dd85ac..11676ca 100644
--- a/client/server.go
+++ b/client/server.go
@@ -612,10 +612,10 @@ func (s *ServerWithTextProtocol) Version() (string, error) {
 		return "", err
 	}
 
-	if len(b) > 0 {
+	if bytes.HasPrefix(b, []byte("VERSION ")) {
 		return strings.TrimSuffix(strings.TrimPrefix(string(b), "VERSION "), "\r\n"), nil
 	}
-	return "", err
+	return "", fmt.Errorf("memcached: failed version: %s", string(b))
 }
 
 type ServerWithMetaProtocol struct {
@@ -1127,11 +1127,11 @@ func (s *ServerWithMetaProtocol) Version() (string, error) {
 	if err != nil {
 		return "", err
 	}
-	if len(b) > 0 {
+	if bytes.HasPrefix(b, []byte("VERSION ")) {
 		return strings.TrimSuffix(strings.TrimPrefix(string(b), "VERSION "), "\r\n"), nil
 	}
 
-	return "", nil
+	return "", fmt.Errorf("memcached: failed version: %s", string(b))
 }
 
 func (s *ServerWithMetaProtocol) Close() error {
-- 
2.43.0


From 0b9b20ebf0a07b028767e93ffcd388d8389f2d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 12/38] fix: binary add never overwrites an existing item

---
 client/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/server.go b/client/server.go
index 11676ca..d9322d2 100644
--- a/client/server.go
+++ b/client/server.go
@@ -1414,6 +1414,7 @@ func (s *ServerWithBinaryProtocol) Add(item *Item) error {
 
 	header.Opcode = binaryOpcodeAdd
 	extra := item.marshalBinaryRequestHeader(header)
+	header.CAS = 0 // with a CAS value the server would replace the existing item
 	if err := header.EncodeTo(s.conn); err != nil {
 		return err
 	}
-- 
2.43.0


From 8b65b31d447d926b00ee3c56a321c2ffc908e6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 13/38] fix: set does not write behind the caller's value

---
 client/server.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/client/server.go b/client/server.go
index d9322d2..d3da505 100644
--- a/client/server.go
+++ b/client/server.go
@@ -452,7 +452,10 @@ func (s *ServerWithTextProtocol) Set(item *Item) error {
 			return err
 		}
 	}
-	if _, err := s.conn.Write(append(item.Value, crlf...)); err != nil {
+	if _, err := s.conn.Write(item.Value); err != nil {
+		return err
+	}
+	if _, err := s.conn.Write(crlf); err != nil {
 		return err
 	}
 	if err := s.conn.Flush(); err != nil {
@@ -873,7 +876,10 @@ func (s *ServerWithMetaProtocol) Set(item *Item) error {
 	if _, err := fmt.Fprintf(s.conn, "ms "+format+"\r\n", values...); err != nil {
 		return err
 	}
-	if _, err := s.conn.Write(append(item.Value, crlf...)); err != nil {
+	if _, err := s.conn.Write(item.Value); err != nil {
+		return err
+	}
+	if _, err := s.conn.Write(crlf); err != nil {
 		return err
 	}
 	if err := s.conn.Flush(); err != nil {
-- 
2.43.0


From 271f54c17fab7e9e510f9f2ef0cacb92725b62e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 14/38] fix: flags that are not 4 bytes long do not panic or
 read past their end

---
 client/server.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/client/server.go b/client/server.go
index d3da505..4c3ecdc 100644
--- a/client/server.go
+++ b/client/server.go
@@ -869,7 +869,7 @@ func (s *ServerWithMetaProtocol) Set(item *Item) error {
 		format += " C%d"
 		values = append(values, item.Cas)
 	}
-	if item.Flags != nil {
+	if len(item.Flags) == 4 {
 		format += " F%d"
 		values = append(values, binary.BigEndian.Uint32(item.Flags))
 	}
@@ -1366,8 +1366,8 @@ func (s *ServerWithBinaryProtocol) Set(item *Item) error {
 	if err := header.EncodeTo(s.conn); err != nil {
 		return err
 	}
-	if item.Flags != nil {
-		copy(extra[:4], item.Flags[:4])
+	if len(item.Flags) == 4 {
+		copy(extra[:4], item.Flags)
 	}
 	s.conn.Write(extra)
 	s.conn.Write([]byte(item.Key))
@@ -1424,8 +1424,8 @@ func (s *ServerWithBinaryProtocol) Add(item *Item) error {
 	if err := header.EncodeTo(s.conn); err != nil {
 		return err
 	}
-	if item.Flags != nil {
-		copy(extra[:4], item.Flags[:4])
+	if len(item.Flags) == 4 {
+		copy(extra[:4], item.Flags)
 	}
 	s.conn.Write(extra)
 	s.conn.Write([]byte(item.Key))
@@ -1479,8 +1479,8 @@ func (s *ServerWithBinaryProtocol) Replace(item *Item) error {
 	if err := header.EncodeTo(s.conn); err != nil {
 		return err
 	}
-	if item.Flags != nil {
-		copy(extra[:4], item.Flags[:4])
+	if len(item.Flags) == 4 {
+		copy(extra[:4], item.Flags)
 	}
 	s.conn.Write(extra)
 	s.conn.Write([]byte(item.Key))
-- 
2.43.0


From 45854fa389e7b58311289680d1abad20ba31f815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:19 +0000
Subject: [PATCH 15/38] fix: an item read by the meta client can be written
 back with its remaining life

---
 client/server.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/client/server.go b/client/server.go
index 4c3ecdc..1b44d99 100644
--- a/client/server.go
+++ b/client/server.go
@@ -41,6 +41,9 @@ var (
 	msgMetaProtoExists    = []byte("EX")
 	msgMetaProtoNotFound  = []byte("NF")
 
+	// The server takes a larger expiration as a unix timestamp.
+	maxRelativeExpiration int64 = 60 * 60 * 24 * 30
+
 	errMetaNoop               = errors.New("memcached: unexpected response to noop")
 	errMetaInvalidGetResponse = errors.New("memcached: invalid get response")
 )
@@ -842,10 +845,17 @@ func (s *ServerWithMetaProtocol) readGetFlagToken(flagName byte, v []byte, item
 		}
 		item.Cas = in
 	case 't':
-		in, err := strconv.ParseInt(string(v), 10, 32)
+		in, err := strconv.ParseInt(string(v), 10, 64)
 		if err != nil {
 			return err
 		}
+		switch {
+		case in < 0:
+			// The item never expires.
+			in = 0
+		case in > maxRelativeExpiration:
+			in += time.Now().Unix()
+		}
 		item.Expiration = int(in)
 	case 'k':
 		item.Key = string(v)
-- 
2.43.0


From a00cf022240b544915ef15eb4ac359617f6050d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 16/38] fix: refuse keys that the protocol can not carry

---
 client/server.go | 125 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 125 insertions(+)

diff --git a/client/server.go b/client/server.go
index 1b44d99..5a66119 100644
--- a/client/server.go
+++ b/client/server.go
@@ -83,6 +83,35 @@ var binaryStatus = map[uint16]string{
 	130: "out of memory",
 }
 
+// maxKeyLength is the longest key which the server accepts.
+const maxKeyLength = 250
+
+var errInvalidKey = errors.New("memcached: invalid key")
+
+// validateKey reports keys that can't be sent with the text and meta protocol.
+func validateKey(keys ...string) error {
+	for _, key := range keys {
+		for i := 0; i < len(key); i++ {
+			if key[i] <= ' ' || key[i] == 0x7f {
+				return errInvalidKey
+			}
+		}
+	}
+
+	return validateBinaryKey(keys...)
+}
+
+// validateBinaryKey reports keys that can't be sent with the binary protocol.
+func validateBinaryKey(keys ...string) error {
+	for _, key := range keys {
+		if len(key) == 0 || len(key) > maxKeyLength {
+			return errInvalidKey
+		}
+	}
+
+	return nil
+}
+
 type ServerOperationType string
 
 const (
@@ -202,6 +231,10 @@ func (s *ServerWithTextProtocol) Reconnect() error {
 }
 
 func (s *ServerWithTextProtocol) Get(key string) (*Item, error) {
+	if err := validateKey(key); err != nil {
+		return nil, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -234,6 +267,10 @@ func (s *ServerWithTextProtocol) Get(key string) (*Item, error) {
 }
 
 func (s *ServerWithTextProtocol) GetMulti(keys ...string) ([]*Item, error) {
+	if err := validateKey(keys...); err != nil {
+		return nil, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -318,6 +355,10 @@ func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, err
 }
 
 func (s *ServerWithTextProtocol) Delete(key string) error {
+	if err := validateKey(key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -360,6 +401,10 @@ func (s *ServerWithTextProtocol) Decrement(key string, delta, _ int) (int64, err
 }
 
 func (s *ServerWithTextProtocol) incrOrDecr(op, key string, delta int) (int64, error) {
+	if err := validateKey(key); err != nil {
+		return 0, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -396,6 +441,10 @@ func (s *ServerWithTextProtocol) incrOrDecr(op, key string, delta int) (int64, e
 }
 
 func (s *ServerWithTextProtocol) Touch(key string, expiration int) error {
+	if err := validateKey(key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -430,6 +479,10 @@ func (s *ServerWithTextProtocol) Touch(key string, expiration int) error {
 }
 
 func (s *ServerWithTextProtocol) Set(item *Item) error {
+	if err := validateKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -482,6 +535,10 @@ func (s *ServerWithTextProtocol) Set(item *Item) error {
 }
 
 func (s *ServerWithTextProtocol) Add(item *Item) error {
+	if err := validateKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -522,6 +579,10 @@ func (s *ServerWithTextProtocol) Add(item *Item) error {
 }
 
 func (s *ServerWithTextProtocol) Replace(item *Item) error {
+	if err := validateKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -692,6 +753,10 @@ func (s *ServerWithMetaProtocol) Reconnect() error {
 }
 
 func (s *ServerWithMetaProtocol) Get(key string) (*Item, error) {
+	if err := validateKey(key); err != nil {
+		return nil, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -716,6 +781,10 @@ func (s *ServerWithMetaProtocol) Get(key string) (*Item, error) {
 }
 
 func (s *ServerWithMetaProtocol) GetMulti(keys ...string) ([]*Item, error) {
+	if err := validateKey(keys...); err != nil {
+		return nil, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -865,6 +934,10 @@ func (s *ServerWithMetaProtocol) readGetFlagToken(flagName byte, v []byte, item
 }
 
 func (s *ServerWithMetaProtocol) Set(item *Item) error {
+	if err := validateKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -915,6 +988,10 @@ func (s *ServerWithMetaProtocol) Set(item *Item) error {
 }
 
 func (s *ServerWithMetaProtocol) Add(item *Item) error {
+	if err := validateKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -952,6 +1029,10 @@ func (s *ServerWithMetaProtocol) Add(item *Item) error {
 }
 
 func (s *ServerWithMetaProtocol) Replace(item *Item) error {
+	if err := validateKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -989,6 +1070,10 @@ func (s *ServerWithMetaProtocol) Replace(item *Item) error {
 }
 
 func (s *ServerWithMetaProtocol) Delete(key string) error {
+	if err := validateKey(key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1033,6 +1118,10 @@ func (s *ServerWithMetaProtocol) Decrement(key string, delta, _ int) (int64, err
 }
 
 func (s *ServerWithMetaProtocol) incrOrDecr(op, key string, delta int) (int64, error) {
+	if err := validateKey(key); err != nil {
+		return 0, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1065,6 +1154,10 @@ func (s *ServerWithMetaProtocol) incrOrDecr(op, key string, delta int) (int64, e
 }
 
 func (s *ServerWithMetaProtocol) Touch(key string, expiration int) error {
+	if err := validateKey(key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1231,6 +1324,10 @@ func (s *ServerWithBinaryProtocol) Reconnect() error {
 }
 
 func (s *ServerWithBinaryProtocol) Get(key string) (*Item, error) {
+	if err := validateBinaryKey(key); err != nil {
+		return nil, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1287,6 +1384,10 @@ func (s *ServerWithBinaryProtocol) Get(key string) (*Item, error) {
 }
 
 func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
+	if err := validateBinaryKey(keys...); err != nil {
+		return nil, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1360,6 +1461,10 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 }
 
 func (s *ServerWithBinaryProtocol) Set(item *Item) error {
+	if err := validateBinaryKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1417,6 +1522,10 @@ func (s *ServerWithBinaryProtocol) Set(item *Item) error {
 }
 
 func (s *ServerWithBinaryProtocol) Add(item *Item) error {
+	if err := validateBinaryKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1473,6 +1582,10 @@ func (s *ServerWithBinaryProtocol) Add(item *Item) error {
 }
 
 func (s *ServerWithBinaryProtocol) Replace(item *Item) error {
+	if err := validateBinaryKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1530,6 +1643,10 @@ func (s *ServerWithBinaryProtocol) Replace(item *Item) error {
 }
 
 func (s *ServerWithBinaryProtocol) Delete(key string) error {
+	if err := validateBinaryKey(key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1592,6 +1709,10 @@ func (s *ServerWithBinaryProtocol) Decrement(key string, delta, expiration int)
 }
 
 func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int, expiration int) (int64, error) {
+	if err := validateBinaryKey(key); err != nil {
+		return 0, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1660,6 +1781,10 @@ func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int
 }
 
 func (s *ServerWithBinaryProtocol) Touch(key string, expiration int) error {
+	if err := validateBinaryKey(key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-- 
2.43.0


From 460496d74dbb6da0ab36ee09feebb9a3db99fe03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:54 +0000
Subject: [PATCH 17/38] fix: do not use a connection again after a timeout or
 an I/O error

---
 client/server.go | 53 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/client/server.go b/client/server.go
index 5a66119..e8a6375 100644
--- a/client/server.go
+++ b/client/server.go
@@ -151,6 +151,41 @@ func EnableAutoReconnect(opt *ServerOption) {
 	opt.EnableAutoReconnect = true
 }
 
+// serverConn is a connection that is not used again after an error, because
+// the reply of the failed call may still arrive on it.
+type serverConn struct {
+	net.Conn
+	err error
+}
+
+func dial(ctx context.Context, network, addr string) (*serverConn, error) {
+	d := &net.Dialer{}
+	conn, err := d.DialContext(ctx, network, addr)
+	if err != nil {
+		return nil, err
+	}
+
+	return &serverConn{Conn: conn}, nil
+}
+
+func (c *serverConn) Read(b []byte) (int, error) {
+	if c.err != nil {
+		return 0, c.err
+	}
+	n, err := c.Conn.Read(b)
+	c.err = err
+	return n, err
+}
+
+func (c *serverConn) Write(b []byte) (int, error) {
+	if c.err != nil {
+		return 0, c.err
+	}
+	n, err := c.Conn.Write(b)
+	c.err = err
+	return n, err
+}
+
 type ServerWithTextProtocol struct {
 	name    string
 	Network string
@@ -167,8 +202,7 @@ type ServerWithTextProtocol struct {
 var _ Server = &ServerWithTextProtocol{}
 
 func NewServerWithTextProtocol(ctx context.Context, name, network, addr string, opts ...ServerOpt) (*ServerWithTextProtocol, error) {
-	d := &net.Dialer{}
-	conn, err := d.DialContext(ctx, network, addr)
+	conn, err := dial(ctx, network, addr)
 	if err != nil {
 		return nil, err
 	}
@@ -220,8 +254,7 @@ func (s *ServerWithTextProtocol) Reconnect() error {
 		}
 	}
 
-	d := &net.Dialer{}
-	conn, err := d.DialContext(context.TODO(), s.Network, s.Addr)
+	conn, err := dial(context.TODO(), s.Network, s.Addr)
 	if err != nil {
 		return err
 	}
@@ -701,8 +734,7 @@ type ServerWithMetaProtocol struct {
 var _ Server = &ServerWithMetaProtocol{}
 
 func NewServerWithMetaProtocol(ctx context.Context, name, network, addr string, opts ...ServerOpt) (*ServerWithMetaProtocol, error) {
-	d := &net.Dialer{}
-	conn, err := d.DialContext(ctx, network, addr)
+	conn, err := dial(ctx, network, addr)
 	if err != nil {
 		return nil, err
 	}
@@ -742,8 +774,7 @@ func (s *ServerWithMetaProtocol) Reconnect() error {
 		}
 	}
 
-	d := &net.Dialer{}
-	conn, err := d.DialContext(context.TODO(), s.Network, s.Addr)
+	conn, err := dial(context.TODO(), s.Network, s.Addr)
 	if err != nil {
 		return err
 	}
@@ -1266,8 +1297,7 @@ type ServerWithBinaryProtocol struct {
 var _ Server = &ServerWithBinaryProtocol{}
 
 func NewServerWithBinaryProtocol(ctx context.Context, name, network, addr string, opts ...ServerOpt) (*ServerWithBinaryProtocol, error) {
-	d := &net.Dialer{}
-	conn, err := d.DialContext(ctx, network, addr)
+	conn, err := dial(ctx, network, addr)
 	if err != nil {
 		return nil, err
 	}
@@ -1313,8 +1343,7 @@ func (s *ServerWithBinaryProtocol) Reconnect() error {
 		}
 	}
 
-	d := &net.Dialer{}
-	conn, err := d.DialContext(context.TODO(), s.Network, s.Addr)
+	conn, err := dial(context.TODO(), s.Network, s.Addr)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From f6077d0376ea22fa8b8d7fc864272d9f0cd87f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:54 +0000
Subject: [PATCH 18/38] fix: reconnect works after a failed reconnect and keeps
 to the timeout

---
 client/server.go | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/client/server.go b/client/server.go
index e8a6375..fe28a0f 100644
--- a/client/server.go
+++ b/client/server.go
@@ -158,8 +158,8 @@ type serverConn struct {
 	err error
 }
 
-func dial(ctx context.Context, network, addr string) (*serverConn, error) {
-	d := &net.Dialer{}
+func dial(ctx context.Context, network, addr string, timeout time.Duration) (*serverConn, error) {
+	d := &net.Dialer{Timeout: timeout}
 	conn, err := d.DialContext(ctx, network, addr)
 	if err != nil {
 		return nil, err
@@ -202,7 +202,7 @@ type ServerWithTextProtocol struct {
 var _ Server = &ServerWithTextProtocol{}
 
 func NewServerWithTextProtocol(ctx context.Context, name, network, addr string, opts ...ServerOpt) (*ServerWithTextProtocol, error) {
-	conn, err := dial(ctx, network, addr)
+	conn, err := dial(ctx, network, addr, 0)
 	if err != nil {
 		return nil, err
 	}
@@ -249,12 +249,11 @@ func (s *ServerWithTextProtocol) Reconnect() error {
 	defer s.mu.Unlock()
 
 	if s.raw != nil {
-		if err := s.raw.Close(); err != nil {
-			return err
-		}
+		// The connection may be closed already.
+		s.raw.Close()
 	}
 
-	conn, err := dial(context.TODO(), s.Network, s.Addr)
+	conn, err := dial(context.TODO(), s.Network, s.Addr, s.Timeout)
 	if err != nil {
 		return err
 	}
@@ -734,7 +733,7 @@ type ServerWithMetaProtocol struct {
 var _ Server = &ServerWithMetaProtocol{}
 
 func NewServerWithMetaProtocol(ctx context.Context, name, network, addr string, opts ...ServerOpt) (*ServerWithMetaProtocol, error) {
-	conn, err := dial(ctx, network, addr)
+	conn, err := dial(ctx, network, addr, 0)
 	if err != nil {
 		return nil, err
 	}
@@ -769,12 +768,11 @@ func (s *ServerWithMetaProtocol) Reconnect() error {
 	defer s.mu.Unlock()
 
 	if s.raw != nil {
-		if err := s.raw.Close(); err != nil {
-			return err
-		}
+		// The connection may be closed already.
+		s.raw.Close()
 	}
 
-	conn, err := dial(context.TODO(), s.Network, s.Addr)
+	conn, err := dial(context.TODO(), s.Network, s.Addr, s.Timeout)
 	if err != nil {
 		return err
 	}
@@ -1297,7 +1295,7 @@ type ServerWithBinaryProtocol struct {
 var _ Server = &ServerWithBinaryProtocol{}
 
 func NewServerWithBinaryProtocol(ctx context.Context, name, network, addr string, opts ...ServerOpt) (*ServerWithBinaryProtocol, error) {
-	conn, err := dial(ctx, network, addr)
+	conn, err := dial(ctx, network, addr, 0)
 	if err != nil {
 		return nil, err
 	}
@@ -1338,12 +1336,11 @@ func (s *ServerWithBinaryProtocol) Reconnect() error {
 	defer s.mu.Unlock()
 
 	if s.raw != nil {
-		if err := s.raw.Close(); err != nil {
-			return err
-		}
+		// The connection may be closed already.
+		s.raw.Close()
 	}
 
-	conn, err := dial(context.TODO(), s.Network, s.Addr)
+	conn, err := dial(context.TODO(), s.Network, s.Addr, s.Timeout)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 1c0b2042f45ff712fae042f0a0e75f8dfb0da418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:01 +0000
Subject: [PATCH 19/38] fix: close can be called at any time and ends all
 background work

---
 client/server.go | 126 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 105 insertions(+), 21 deletions(-)

diff --git a/client/server.go b/client/server.go
index fe28a0f..07390a0 100644
--- a/client/server.go
+++ b/client/server.go
@@ -168,6 +168,20 @@ func dial(ctx context.Context, network, addr string, timeout time.Duration) (*se
 	return &serverConn{Conn: conn}, nil
 }
 
+// contextWithClose returns a context that is canceled when closeCh is closed.
+func contextWithClose(closeCh <-chan struct{}) (context.Context, context.CancelFunc) {
+	ctx, cancel := context.WithCancel(context.Background())
+	go func() {
+		select {
+		case <-closeCh:
+			cancel()
+		case <-ctx.Done():
+		}
+	}()
+
+	return ctx, cancel
+}
+
 func (c *serverConn) Read(b []byte) (int, error) {
 	if c.err != nil {
 		return 0, c.err
@@ -195,8 +209,9 @@ type ServerWithTextProtocol struct {
 
 	conn    *bufio.ReadWriter
 	closeCh chan struct{}
-	raw     net.Conn
+	raw     *serverConn
 	mu      sync.Mutex
+	closeMu sync.Mutex // guards closeCh, and raw against Close
 }
 
 var _ Server = &ServerWithTextProtocol{}
@@ -233,12 +248,14 @@ func (s *ServerWithTextProtocol) Name() string {
 }
 
 func (s *ServerWithTextProtocol) Close() error {
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+
 	if s.closeCh == nil {
 		return errors.New("memcached: already closed")
 	}
 
 	err := s.raw.Close()
-	s.raw = nil
 	close(s.closeCh)
 	s.closeCh = nil
 	return err
@@ -248,15 +265,30 @@ func (s *ServerWithTextProtocol) Reconnect() error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.raw != nil {
-		// The connection may be closed already.
-		s.raw.Close()
-	}
+	s.closeMu.Lock()
+	closeCh := s.closeCh
+	s.closeMu.Unlock()
+
+	// The connection may be closed already.
+	s.raw.Close()
 
-	conn, err := dial(context.TODO(), s.Network, s.Addr, s.Timeout)
+	ctx, cancel := contextWithClose(closeCh)
+	defer cancel()
+	conn, err := dial(ctx, s.Network, s.Addr, s.Timeout)
 	if err != nil {
 		return err
 	}
+
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+	if s.closeCh != closeCh {
+		// Close was called in the meantime.
+		conn.Close()
+		return errors.New("memcached: closed")
+	}
+	if closeCh == nil {
+		s.closeCh = make(chan struct{})
+	}
 	s.raw = conn
 	s.conn = bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
 	return nil
@@ -726,8 +758,9 @@ type ServerWithMetaProtocol struct {
 
 	closeCh chan struct{}
 	conn    *bufio.ReadWriter
-	raw     net.Conn
+	raw     *serverConn
 	mu      sync.Mutex
+	closeMu sync.Mutex // guards closeCh, and raw against Close
 }
 
 var _ Server = &ServerWithMetaProtocol{}
@@ -767,15 +800,30 @@ func (s *ServerWithMetaProtocol) Reconnect() error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.raw != nil {
-		// The connection may be closed already.
-		s.raw.Close()
-	}
+	s.closeMu.Lock()
+	closeCh := s.closeCh
+	s.closeMu.Unlock()
 
-	conn, err := dial(context.TODO(), s.Network, s.Addr, s.Timeout)
+	// The connection may be closed already.
+	s.raw.Close()
+
+	ctx, cancel := contextWithClose(closeCh)
+	defer cancel()
+	conn, err := dial(ctx, s.Network, s.Addr, s.Timeout)
 	if err != nil {
 		return err
 	}
+
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+	if s.closeCh != closeCh {
+		// Close was called in the meantime.
+		conn.Close()
+		return errors.New("memcached: closed")
+	}
+	if closeCh == nil {
+		s.closeCh = make(chan struct{})
+	}
 	s.raw = conn
 	s.conn = bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
 	return nil
@@ -1273,7 +1321,17 @@ func (s *ServerWithMetaProtocol) Version() (string, error) {
 }
 
 func (s *ServerWithMetaProtocol) Close() error {
-	return s.raw.Close()
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+
+	if s.closeCh == nil {
+		return errors.New("memcached: already closed")
+	}
+
+	err := s.raw.Close()
+	close(s.closeCh)
+	s.closeCh = nil
+	return err
 }
 
 type ServerWithBinaryProtocol struct {
@@ -1285,8 +1343,9 @@ type ServerWithBinaryProtocol struct {
 
 	closeCh chan struct{}
 	mu      sync.Mutex
+	closeMu sync.Mutex // guards closeCh, and raw against Close
 	conn    *bufio.ReadWriter
-	raw     net.Conn
+	raw     *serverConn
 
 	reqHeaderPool *sync.Pool
 	resHeaderPool *sync.Pool
@@ -1335,15 +1394,30 @@ func (s *ServerWithBinaryProtocol) Reconnect() error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.raw != nil {
-		// The connection may be closed already.
-		s.raw.Close()
-	}
+	s.closeMu.Lock()
+	closeCh := s.closeCh
+	s.closeMu.Unlock()
+
+	// The connection may be closed already.
+	s.raw.Close()
 
-	conn, err := dial(context.TODO(), s.Network, s.Addr, s.Timeout)
+	ctx, cancel := contextWithClose(closeCh)
+	defer cancel()
+	conn, err := dial(ctx, s.Network, s.Addr, s.Timeout)
 	if err != nil {
 		return err
 	}
+
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+	if s.closeCh != closeCh {
+		// Close was called in the meantime.
+		conn.Close()
+		return errors.New("memcached: closed")
+	}
+	if closeCh == nil {
+		s.closeCh = make(chan struct{})
+	}
 	s.raw = conn
 	s.conn = bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
 	return nil
@@ -1947,7 +2021,17 @@ func (s *ServerWithBinaryProtocol) Version() (string, error) {
 }
 
 func (s *ServerWithBinaryProtocol) Close() error {
-	return s.raw.Close()
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+
+	if s.closeCh == nil {
+		return errors.New("memcached: already closed")
+	}
+
+	err := s.raw.Close()
+	close(s.closeCh)
+	s.closeCh = nil
+	return err
 }
 
 func (s *ServerWithBinaryProtocol) getReqHeader() *binaryRequestHeader {
-- 
2.43.0


From 7d1212c322f2fec8735e375fd1aad9cced499319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 20/38] fix: the heartbeat keeps probing and survives failed
 reconnects

---
 client/server.go | 105 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 90 insertions(+), 15 deletions(-)

diff --git a/client/server.go b/client/server.go
index 07390a0..ad0a5a1 100644
--- a/client/server.go
+++ b/client/server.go
@@ -212,6 +212,7 @@ type ServerWithTextProtocol struct {
 	raw     *serverConn
 	mu      sync.Mutex
 	closeMu sync.Mutex // guards closeCh, and raw against Close
+	opt     *ServerOption
 }
 
 var _ Server = &ServerWithTextProtocol{}
@@ -234,11 +235,10 @@ func NewServerWithTextProtocol(ctx context.Context, name, network, addr string,
 		closeCh: make(chan struct{}),
 		conn:    bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn)),
 		raw:     conn,
+		opt:     opt,
 	}
 
-	if opt.HeartbeatInterval > 0 {
-		go heartbeat(server, opt.HeartbeatInterval, opt.EnableAutoReconnect, server.closeCh)
-	}
+	startHeartbeat(server, opt, server.closeCh)
 
 	return server, nil
 }
@@ -262,6 +262,22 @@ func (s *ServerWithTextProtocol) Close() error {
 }
 
 func (s *ServerWithTextProtocol) Reconnect() error {
+	return s.reconnect(true)
+}
+
+// disconnect closes the connection if it failed.
+func (s *ServerWithTextProtocol) disconnect() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	if s.raw.err != nil {
+		s.raw.Close()
+	}
+}
+
+// reconnect replaces the connection. Unless force is true, this is done only
+// if the connection failed and the server is not closed.
+func (s *ServerWithTextProtocol) reconnect(force bool) error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -269,6 +285,10 @@ func (s *ServerWithTextProtocol) Reconnect() error {
 	closeCh := s.closeCh
 	s.closeMu.Unlock()
 
+	if !force && (closeCh == nil || s.raw.err == nil) {
+		return nil
+	}
+
 	// The connection may be closed already.
 	s.raw.Close()
 
@@ -288,6 +308,7 @@ func (s *ServerWithTextProtocol) Reconnect() error {
 	}
 	if closeCh == nil {
 		s.closeCh = make(chan struct{})
+		startHeartbeat(s, s.opt, s.closeCh)
 	}
 	s.raw = conn
 	s.conn = bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
@@ -761,6 +782,7 @@ type ServerWithMetaProtocol struct {
 	raw     *serverConn
 	mu      sync.Mutex
 	closeMu sync.Mutex // guards closeCh, and raw against Close
+	opt     *ServerOption
 }
 
 var _ Server = &ServerWithMetaProtocol{}
@@ -783,11 +805,10 @@ func NewServerWithMetaProtocol(ctx context.Context, name, network, addr string,
 		closeCh: make(chan struct{}),
 		conn:    bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn)),
 		raw:     conn,
+		opt:     opt,
 	}
 
-	if opt.HeartbeatInterval > 0 {
-		go heartbeat(server, opt.HeartbeatInterval, opt.EnableAutoReconnect, server.closeCh)
-	}
+	startHeartbeat(server, opt, server.closeCh)
 
 	return server, nil
 }
@@ -797,6 +818,22 @@ func (s *ServerWithMetaProtocol) Name() string {
 }
 
 func (s *ServerWithMetaProtocol) Reconnect() error {
+	return s.reconnect(true)
+}
+
+// disconnect closes the connection if it failed.
+func (s *ServerWithMetaProtocol) disconnect() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	if s.raw.err != nil {
+		s.raw.Close()
+	}
+}
+
+// reconnect replaces the connection. Unless force is true, this is done only
+// if the connection failed and the server is not closed.
+func (s *ServerWithMetaProtocol) reconnect(force bool) error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -804,6 +841,10 @@ func (s *ServerWithMetaProtocol) Reconnect() error {
 	closeCh := s.closeCh
 	s.closeMu.Unlock()
 
+	if !force && (closeCh == nil || s.raw.err == nil) {
+		return nil
+	}
+
 	// The connection may be closed already.
 	s.raw.Close()
 
@@ -823,6 +864,7 @@ func (s *ServerWithMetaProtocol) Reconnect() error {
 	}
 	if closeCh == nil {
 		s.closeCh = make(chan struct{})
+		startHeartbeat(s, s.opt, s.closeCh)
 	}
 	s.raw = conn
 	s.conn = bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
@@ -1344,6 +1386,7 @@ type ServerWithBinaryProtocol struct {
 	closeCh chan struct{}
 	mu      sync.Mutex
 	closeMu sync.Mutex // guards closeCh, and raw against Close
+	opt     *ServerOption
 	conn    *bufio.ReadWriter
 	raw     *serverConn
 
@@ -1371,6 +1414,7 @@ func NewServerWithBinaryProtocol(ctx context.Context, name, network, addr string
 		closeCh: make(chan struct{}),
 		conn:    bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn)),
 		raw:     conn,
+		opt:     opt,
 		reqHeaderPool: &sync.Pool{New: func() interface{} {
 			return newBinaryRequestHeader()
 		}},
@@ -1379,9 +1423,7 @@ func NewServerWithBinaryProtocol(ctx context.Context, name, network, addr string
 		}},
 	}
 
-	if opt.HeartbeatInterval > 0 {
-		go heartbeat(server, opt.HeartbeatInterval, opt.EnableAutoReconnect, server.closeCh)
-	}
+	startHeartbeat(server, opt, server.closeCh)
 
 	return server, nil
 }
@@ -1391,6 +1433,22 @@ func (s *ServerWithBinaryProtocol) Name() string {
 }
 
 func (s *ServerWithBinaryProtocol) Reconnect() error {
+	return s.reconnect(true)
+}
+
+// disconnect closes the connection if it failed.
+func (s *ServerWithBinaryProtocol) disconnect() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	if s.raw.err != nil {
+		s.raw.Close()
+	}
+}
+
+// reconnect replaces the connection. Unless force is true, this is done only
+// if the connection failed and the server is not closed.
+func (s *ServerWithBinaryProtocol) reconnect(force bool) error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1398,6 +1456,10 @@ func (s *ServerWithBinaryProtocol) Reconnect() error {
 	closeCh := s.closeCh
 	s.closeMu.Unlock()
 
+	if !force && (closeCh == nil || s.raw.err == nil) {
+		return nil
+	}
+
 	// The connection may be closed already.
 	s.raw.Close()
 
@@ -1417,6 +1479,7 @@ func (s *ServerWithBinaryProtocol) Reconnect() error {
 	}
 	if closeCh == nil {
 		s.closeCh = make(chan struct{})
+		startHeartbeat(s, s.opt, s.closeCh)
 	}
 	s.raw = conn
 	s.conn = bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
@@ -2125,8 +2188,21 @@ func (h *binaryResponseHeader) Read(r io.Reader) error {
 	return nil
 }
 
-func heartbeat(s Server, interval time.Duration, reconnect bool, closeCh <-chan struct{}) {
-	ticker := time.NewTimer(interval)
+type heartbeatServer interface {
+	Version() (string, error)
+	reconnect(force bool) error
+	disconnect()
+}
+
+func startHeartbeat(s heartbeatServer, opt *ServerOption, closeCh <-chan struct{}) {
+	if opt.HeartbeatInterval > 0 {
+		go heartbeat(s, opt.HeartbeatInterval, opt.EnableAutoReconnect, closeCh)
+	}
+}
+
+func heartbeat(s heartbeatServer, interval time.Duration, reconnect bool, closeCh <-chan struct{}) {
+	ticker := time.NewTicker(interval)
+	defer ticker.Stop()
 	for {
 		select {
 		case <-closeCh:
@@ -2135,11 +2211,10 @@ func heartbeat(s Server, interval time.Duration, reconnect bool, closeCh <-chan
 			_, err := s.Version()
 			if err != nil {
 				if reconnect {
-					if err := s.Reconnect(); err != nil {
-						return
-					}
+					// If this fails, the next heartbeat tries again.
+					s.reconnect(false)
 				} else {
-					s.Close()
+					s.disconnect()
 				}
 			}
 		}
-- 
2.43.0


From 4fe42af5b6f061f8a2b5a569480af0f253ffe5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:27 +0000
Subject: [PATCH 21/38] fix: multi-get with many keys does not deadlock with
 the server

---
 client/server.go | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/client/server.go b/client/server.go
index ad0a5a1..95eff6b 100644
--- a/client/server.go
+++ b/client/server.go
@@ -112,6 +112,23 @@ func validateBinaryKey(keys ...string) error {
 	return nil
 }
 
+// maxMultiGetSize limits the requests that are sent before the replies are read.
+// The server stops reading while its replies are not read.
+const maxMultiGetSize = 4096
+
+// multiGetBatch returns how many of the keys can be requested at once.
+func multiGetBatch(keys []string) int {
+	size := 0
+	for i, key := range keys {
+		size += len(key) + 24 // request header of the binary protocol
+		if i > 0 && size > maxMultiGetSize-24 {
+			return i
+		}
+	}
+
+	return len(keys)
+}
+
 type ServerOperationType string
 
 const (
@@ -912,6 +929,21 @@ func (s *ServerWithMetaProtocol) GetMulti(keys ...string) ([]*Item, error) {
 		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
 	}
 
+	items := make([]*Item, 0, len(keys))
+	for len(keys) > 0 {
+		n := multiGetBatch(keys)
+		v, err := s.getMulti(keys[:n])
+		if err != nil {
+			return nil, err
+		}
+		items = append(items, v...)
+		keys = keys[n:]
+	}
+
+	return items, nil
+}
+
+func (s *ServerWithMetaProtocol) getMulti(keys []string) ([]*Item, error) {
 	items := make([]*Item, 0)
 	for _, key := range keys {
 		if _, err := fmt.Fprintf(s.conn, "mg %s v f k c t\r\n", key); err != nil {
@@ -1559,6 +1591,21 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
 	}
 
+	items := make([]*Item, 0, len(keys))
+	for len(keys) > 0 {
+		n := multiGetBatch(keys)
+		v, err := s.getMulti(keys[:n])
+		if err != nil {
+			return nil, err
+		}
+		items = append(items, v...)
+		keys = keys[n:]
+	}
+
+	return items, nil
+}
+
+func (s *ServerWithBinaryProtocol) getMulti(keys []string) ([]*Item, error) {
 	items := make([]*Item, 0, len(keys))
 	header := s.reqHeaderPool.Get().(*binaryRequestHeader)
 	for _, key := range keys {
-- 
2.43.0


From bf81874d2699290dc6a9ac1a409eb814d71453fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 22/38] fix: closing a pool closes all its servers even if one
 of them reports an error

---
 client/client.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/client/client.go b/client/client.go
index 44a579f..2bd327c 100644
--- a/client/client.go
+++ b/client/client.go
@@ -109,7 +109,5 @@ func (c *SinglePool) Version() (map[string]string, error) {
 }
 
 func (c *SinglePool) Close() error {
-	return c.ring.Each(func(s Server) error {
-		return s.Close()
-	})
+	return c.ring.Close()
 }
-- 
2.43.0


From 7abd112e6ce70c3a9d284450f9347b617de1a60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:50 +0000
Subject: [PATCH 23/38] fix: the owner of a key does not depend on the order
 and number of the other servers

---
 client/ring.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/client/ring.go b/client/ring.go
index 02193c0..4150c2c 100644
--- a/client/ring.go
+++ b/client/ring.go
@@ -35,6 +35,10 @@ func NewRing(servers ...Server) *Ring {
 	}
 
 	sort.Slice(nodes, func(i, j int) bool {
+		if nodes[i].hash == nodes[j].hash {
+			// The order must not depend on the order of the servers.
+			return nodes[i].Server.Name() < nodes[j].Server.Name()
+		}
 		return nodes[i].hash < nodes[j].hash
 	})
 
@@ -52,19 +56,15 @@ func NewRing(servers ...Server) *Ring {
 func (r *Ring) Pick(key string) Server {
 	h := crc32.ChecksumIEEE([]byte(key))
 
+	// Find the last node that is not after the key.
 	lower := 0
 	upper := len(r.nodes) - 1
-Search:
 	for lower <= upper {
 		idx := (lower + upper) / 2
 
-		t := r.nodes[idx].hash
-		switch {
-		case t == h:
-			break Search
-		case h < t:
+		if h < r.nodes[idx].hash {
 			upper = idx - 1
-		case t < h:
+		} else {
 			lower = idx + 1
 		}
 	}
-- 
2.43.0


From ee5503b65915c78979e6cc67959929a8e72d44de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:50 +0000
Subject: [PATCH 24/38] fix: the replica pool applies writes in the same order
 to both servers and keeps the CAS value to the primary

---
 cluster/cluster.go | 67 +++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 64 insertions(+), 3 deletions(-)

diff --git a/cluster/cluster.go b/cluster/cluster.go
index 63b5830..2da9c9f 100644
--- a/cluster/cluster.go
+++ b/cluster/cluster.go
@@ -1,12 +1,53 @@
 package cluster
 
 import (
+	"sync"
+
 	"go.f110.dev/go-memcached/client"
 )
 
 type ReplicaPool struct {
 	primary   *client.Ring
 	secondary *client.Ring
+	locks     keyLocks
+}
+
+// keyLocks serializes the writes of each key, so that the secondary gets them
+// in the same order as the primary.
+type keyLocks struct {
+	mu sync.Mutex
+	m  map[string]*keyLock
+}
+
+type keyLock struct {
+	sync.Mutex
+	users int
+}
+
+func (l *keyLocks) lock(key string) (unlock func()) {
+	l.mu.Lock()
+	if l.m == nil {
+		l.m = make(map[string]*keyLock)
+	}
+	k, ok := l.m[key]
+	if !ok {
+		k = &keyLock{}
+		l.m[key] = k
+	}
+	k.users++
+	l.mu.Unlock()
+
+	k.Lock()
+	return func() {
+		k.Unlock()
+
+		l.mu.Lock()
+		defer l.mu.Unlock()
+		k.users--
+		if k.users == 0 {
+			delete(l.m, key)
+		}
+	}
 }
 
 func NewReplicaPool(primary, secondary []*client.ServerWithMetaProtocol) *ReplicaPool {
@@ -54,30 +95,46 @@ func (p *ReplicaPool) GetMulti(keys ...string) ([]*client.Item, error) {
 }
 
 func (p *ReplicaPool) Set(item *client.Item) error {
+	defer p.locks.lock(item.Key)()
+
 	if err := p.primary.Pick(item.Key).Set(item); err != nil {
 		return err
 	}
 
-	return p.secondary.Pick(item.Key).Set(item)
+	return p.setSecondary(item)
+}
+
+// setSecondary stores the item that the primary accepted. The CAS value is
+// meaningful to the primary only.
+func (p *ReplicaPool) setSecondary(item *client.Item) error {
+	i := *item
+	i.Cas = 0
+	return p.secondary.Pick(item.Key).Set(&i)
 }
 
 func (p *ReplicaPool) Add(item *client.Item) error {
+	defer p.locks.lock(item.Key)()
+
 	if err := p.primary.Pick(item.Key).Add(item); err != nil {
 		return err
 	}
 
-	return p.secondary.Pick(item.Key).Set(item)
+	return p.setSecondary(item)
 }
 
 func (p *ReplicaPool) Replace(item *client.Item) error {
+	defer p.locks.lock(item.Key)()
+
 	if err := p.primary.Pick(item.Key).Replace(item); err != nil {
 		return err
 	}
 
-	return p.secondary.Pick(item.Key).Set(item)
+	return p.setSecondary(item)
 }
 
 func (p *ReplicaPool) Delete(key string) error {
+	defer p.locks.lock(key)()
+
 	if err := p.primary.Pick(key).Delete(key); err != nil {
 		return err
 	}
@@ -86,6 +143,8 @@ func (p *ReplicaPool) Delete(key string) error {
 }
 
 func (p *ReplicaPool) Increment(key string, delta, expiration int) (int64, error) {
+	defer p.locks.lock(key)()
+
 	s := p.primary.Pick(key)
 	n, err := s.Increment(key, delta, expiration)
 	if err != nil {
@@ -108,6 +167,8 @@ func (p *ReplicaPool) Increment(key string, delta, expiration int) (int64, error
 }
 
 func (p *ReplicaPool) Decrement(key string, delta, expiration int) (int64, error) {
+	defer p.locks.lock(key)()
+
 	s := p.primary.Pick(key)
 	n, err := s.Decrement(key, delta, expiration)
 	if err != nil {
-- 
2.43.0


From 771e1ec96a3f8ff021af23964f5a09f26bb9d0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:41 +0000
Subject: [PATCH 25/38] fix: malformed requests do not crash the server or
 confuse it

Negative and inconsistent lengths, short extras and empty tokens made the
server panic, a large length made it allocate that much memory, a data block
of another length than announced was accepted, and the body of binary
requests was not always read completely, so that its rest was taken for the
next request.
---
 server/server.go | 82 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 72 insertions(+), 10 deletions(-)

diff --git a/server/server.go b/server/server.go
index 0fa64ce..89edcdf 100644
--- a/server/server.go
+++ b/server/server.go
@@ -2,6 +2,7 @@ package server
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -113,6 +114,31 @@ func (c *conn) readRequest() (*Request, error) {
 	return nil, nil
 }
 
+// readFull reads n bytes. Memory is allocated as the data arrives, since the
+// length is only a claim of the client.
+func (c *conn) readFull(n int) ([]byte, error) {
+	buf := new(bytes.Buffer)
+	if _, err := io.CopyN(buf, c.connBuf, int64(n)); err != nil {
+		return nil, err
+	}
+	return buf.Bytes(), nil
+}
+
+// readDataBlock reads the data block of n bytes that follows a request line.
+func (c *conn) readDataBlock(n int) ([]byte, error) {
+	if n < 0 {
+		return nil, errors.New("server: invalid request")
+	}
+	buf, err := c.readFull(n + len(crlf))
+	if err != nil {
+		return nil, err
+	}
+	if !bytes.HasSuffix(buf, crlf) {
+		return nil, errors.New("server: invalid request")
+	}
+	return buf[:n], nil
+}
+
 func (c *conn) readAsciiRequest() (*Request, error) {
 	line, err := c.connBuf.ReadBytes('\n')
 	if err != nil {
@@ -150,11 +176,10 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		if err != nil {
 			return nil, err
 		}
-		buf := make([]byte, bufLen+2)
-		if _, err := io.ReadFull(c.connBuf, buf); err != nil {
+		buf, err := c.readDataBlock(int(bufLen))
+		if err != nil {
 			return nil, err
 		}
-		buf = buf[:bufLen]
 
 		opcode := OpcodeSet
 		switch s[0] {
@@ -234,6 +259,9 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		opt := &SetOpt{Meta: true, Size: int(v)}
 		if len(s[2]) > 0 {
 			for _, f := range tokens {
+				if f == "" {
+					continue
+				}
 				switch f[0] {
 				case 'C':
 					opt.Cas = true
@@ -276,11 +304,10 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 			}
 		}
 
-		buf := make([]byte, opt.Size+2)
-		if _, err := io.ReadFull(c.connBuf, buf); err != nil {
+		buf, err := c.readDataBlock(opt.Size)
+		if err != nil {
 			return nil, err
 		}
-		buf = buf[:opt.Size]
 
 		return &Request{Opcode: OpcodeSet, Key: s[1], Value: buf, SetOpt: opt}, nil
 	case "flush_all":
@@ -297,7 +324,7 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 	if _, err := io.ReadFull(c.connBuf, header); err != nil {
 		return nil, err
 	}
-	if header[0] != magicRequest {
+	if header[0] != magicRequest || !validBinaryLength(header) {
 		return nil, errors.New("server: invalid request")
 	}
 
@@ -332,8 +359,8 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 		}
 
 		totalBodyLen := binary.BigEndian.Uint32(header[8:12])
-		buf := make([]byte, int(totalBodyLen)-len(extra)-int(KeyLength))
-		if _, err := io.ReadFull(c.connBuf, buf); err != nil {
+		buf, err := c.readFull(int(totalBodyLen) - len(extra) - int(KeyLength))
+		if err != nil {
 			return nil, err
 		}
 
@@ -386,13 +413,48 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 		}
 
 		return &Request{Opcode: OpcodeTouch, Key: string(keyBuf), SetOpt: &SetOpt{Expiration: int(expiration)}}, nil
-	case OpcodeNoop, OpcodeVersion, OpcodeFlush:
+	case OpcodeFlush:
+		extra := make([]byte, header[4])
+		if _, err := io.ReadFull(c.connBuf, extra); err != nil {
+			return nil, err
+		}
+		if len(extra) > 0 && binary.BigEndian.Uint32(extra) != 0 {
+			// The handler can't be asked for a delayed flush.
+			return nil, errors.New("server: invalid request")
+		}
+
+		return &Request{Opcode: OpcodeFlush}, nil
+	case OpcodeNoop, OpcodeVersion:
 		return &Request{Opcode: Opcode(header[1])}, nil
 	}
 
 	return nil, errors.New("server: invalid request")
 }
 
+// validBinaryLength reports whether the lengths in the header of a request are
+// the ones that its opcode requires.
+func validBinaryLength(header []byte) bool {
+	keyLen := int64(binary.BigEndian.Uint16(header[2:4]))
+	extraLen := int64(header[4])
+	valueLen := int64(binary.BigEndian.Uint32(header[8:12])) - extraLen - keyLen
+
+	switch Opcode(header[1]) {
+	case OpcodeGet, OpcodeGetKQ, OpcodeDelete:
+		return extraLen == 0 && keyLen > 0 && valueLen == 0
+	case OpcodeSet, OpcodeAdd, OpcodeReplace:
+		return extraLen == 8 && keyLen > 0 && valueLen >= 0
+	case OpcodeIncrement, OpcodeDecrement:
+		return extraLen == 20 && keyLen > 0 && valueLen == 0
+	case OpcodeTouch:
+		return extraLen == 4 && keyLen > 0 && valueLen == 0
+	case OpcodeFlush:
+		return (extraLen == 0 || extraLen == 4) && keyLen == 0 && valueLen == 0
+	case OpcodeNoop, OpcodeVersion:
+		return extraLen == 0 && keyLen == 0 && valueLen == 0
+	}
+	return false
+}
+
 type Opcode byte
 
 type Handler interface {
-- 
2.43.0


From 0bf22ad018f611b284e55439d3baa12b681d732f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:40 +0000
Subject: [PATCH 26/38] fix: the server answers misses and errors of the
 handler as such

An error for anything but a get was never answered, so that the client waited
forever. A get that failed was answered with an empty item, and in the binary
protocol a get without a result was not answered at all.
---
 server/server.go | 84 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 84 insertions(+)

diff --git a/server/server.go b/server/server.go
index 89edcdf..a98f87f 100644
--- a/server/server.go
+++ b/server/server.go
@@ -11,6 +11,8 @@ import (
 	"strconv"
 	"strings"
 	"sync"
+
+	merrors "go.f110.dev/go-memcached/errors"
 )
 
 const (
@@ -59,6 +61,11 @@ var (
 
 var crlf = []byte("\r\n")
 
+// binaryStatusInternalError is the status of an error that has none by itself.
+const binaryStatusInternalError uint16 = 0x84
+
+var errNoResponse = errors.New("no response")
+
 type Protocol string
 
 type conn struct {
@@ -587,7 +594,68 @@ func (s *Server) writeResponse(conn *conn, req *Request, res []*Response) error
 	return nil
 }
 
+// statusOf returns the status that err has in the binary protocol.
+func statusOf(err error) uint16 {
+	var e *merrors.MemcachedError
+	if errors.As(err, &e) && e.Status != 0 {
+		return e.Status
+	}
+	return binaryStatusInternalError
+}
+
+// splitResponse returns the items that were found, and the error which has to
+// be reported instead of them.
+func splitResponse(req *Request, res []*Response) ([]*Response, error) {
+	if req.Opcode != OpcodeGet {
+		if len(res) == 0 {
+			return nil, errNoResponse
+		}
+		return res, res[0].Error
+	}
+
+	found := make([]*Response, 0, len(res))
+	for _, r := range res {
+		switch {
+		case r.Error == nil:
+			found = append(found, r)
+		case statusOf(r.Error) != merrors.ItemNotFound.Status:
+			return nil, r.Error
+		}
+	}
+	return found, nil
+}
+
+func (s *Server) writeAsciiError(conn *conn, req *Request, resErr error) error {
+	meta := req.SetOpt != nil && req.SetOpt.Meta || req.DelOpt != nil && req.DelOpt.Meta
+
+	var msg string
+	switch status := statusOf(resErr); {
+	case status == merrors.ItemNotFound.Status && meta:
+		msg = "NF"
+	case status == merrors.ItemExists.Status && meta:
+		msg = "EX"
+	case status == merrors.ItemNotFound.Status && req.Opcode == OpcodeReplace,
+		status == merrors.ItemExists.Status && req.Opcode == OpcodeAdd:
+		msg = "NOT_STORED"
+	case status == merrors.ItemNotFound.Status:
+		msg = "NOT_FOUND"
+	case status == merrors.ItemExists.Status:
+		msg = "EXISTS"
+	default:
+		msg = "SERVER_ERROR " + strings.NewReplacer("\r", " ", "\n", " ").Replace(resErr.Error())
+	}
+
+	conn.connBuf.WriteString(msg)
+	conn.connBuf.Write(crlf)
+	return conn.connBuf.Flush()
+}
+
 func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) error {
+	res, err := splitResponse(req, res)
+	if err != nil {
+		return s.writeAsciiError(conn, req, err)
+	}
+
 	switch req.Opcode {
 	case OpcodeGet:
 		if req.GetOpt == nil {
@@ -746,8 +814,17 @@ func (s *Server) writeAsciiResponseMetaGet(conn *conn, req *Request, r *Response
 }
 
 func (s *Server) writeBinaryResponse(conn *conn, req *Request, res []*Response) error {
+	res, err := splitResponse(req, res)
+	if err != nil {
+		return (&Response{Error: err}).writeAsBinaryProtocol(conn, req)
+	}
+
 	switch req.Opcode {
 	case OpcodeGet:
+		if len(res) == 0 && (req.GetOpt == nil || !req.GetOpt.NoReply) {
+			r := &Response{Error: merrors.ItemNotFound}
+			return r.writeAsBinaryProtocol(conn, req)
+		}
 		for _, v := range res {
 			if err := v.writeAsBinaryProtocol(conn, req); err != nil {
 				return err
@@ -775,6 +852,13 @@ func (r *Response) writeAsBinaryProtocol(conn *conn, req *Request) error {
 	header := make([]byte, 24)
 	header[0] = magicResponse
 	header[1] = byte(req.Opcode)
+	if req.GetOpt != nil && req.GetOpt.NoReply {
+		header[1] = byte(OpcodeGetKQ)
+	}
+	if r.Error != nil {
+		binary.BigEndian.PutUint16(header[6:8], statusOf(r.Error))
+		r = &Response{Value: []byte(r.Error.Error())}
+	}
 	binary.BigEndian.PutUint16(header[2:4], uint16(len(r.Key)))
 	header[4] = uint8(len(r.Flags))
 	binary.BigEndian.PutUint32(header[8:12], uint32(len(r.Key)+len(r.Flags)+len(r.Value)))
-- 
2.43.0


From 705c069ada144bd01d5c498b9a7d343e19003523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:16 +0000
Subject: [PATCH 27/38] fix: the server passes on numbers and the CAS value as
 they were sent

Flags and deltas that do not fit in 31 bits were refused in the text and meta
protocol, and the binary protocol lost the CAS value and the opaque of a
request, the CAS value of a response and the sign of an expiration.
---
 server/server.go | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/server/server.go b/server/server.go
index a98f87f..5390fd3 100644
--- a/server/server.go
+++ b/server/server.go
@@ -74,6 +74,9 @@ type conn struct {
 	connBuf *bufio.ReadWriter
 	raw     net.Conn
 
+	// opaque is the opaque field of the last request in the binary protocol.
+	opaque [4]byte
+
 	closeOnce sync.Once
 }
 
@@ -168,7 +171,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		if len(s) != 5 {
 			return nil, errors.New("server: invalid request")
 		}
-		f, err := strconv.ParseInt(s[2], 10, 32)
+		f, err := strconv.ParseUint(s[2], 10, 32)
 		if err != nil {
 			return nil, err
 		}
@@ -210,7 +213,14 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		if len(s) != 3 {
 			return nil, errors.New("server: invalid request")
 		}
-		d, err := strconv.ParseInt(s[2], 10, 32)
+		if s[0] == "touch" {
+			d, err := strconv.ParseInt(s[2], 10, 32)
+			if err != nil {
+				return nil, err
+			}
+			return &Request{Opcode: OpcodeTouch, Key: s[1], Delta: d}, nil
+		}
+		d, err := strconv.ParseUint(s[2], 10, 64)
 		if err != nil {
 			return nil, err
 		}
@@ -218,10 +228,8 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		switch s[0] {
 		case "decr":
 			opcode = OpcodeDecrement
-		case "touch":
-			opcode = OpcodeTouch
 		}
-		return &Request{Opcode: opcode, Key: s[1], Delta: d}, nil
+		return &Request{Opcode: opcode, Key: s[1], Delta: int64(d)}, nil
 	case "mg":
 		if len(s) < 3 {
 			return nil, errors.New("server: invalid request")
@@ -278,7 +286,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 					}
 					opt.CasValue = v
 				case 'F':
-					v, err := strconv.ParseInt(f[1:], 10, 32)
+					v, err := strconv.ParseUint(f[1:], 10, 32)
 					if err != nil {
 						return nil, err
 					}
@@ -335,6 +343,8 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 		return nil, errors.New("server: invalid request")
 	}
 
+	copy(c.opaque[:], header[12:16])
+
 	switch Opcode(header[1]) {
 	case OpcodeGet:
 		KeyLength := binary.BigEndian.Uint16(header[2:4])
@@ -358,6 +368,7 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 			return nil, err
 		}
 		expiration := binary.BigEndian.Uint32(extra[4:8])
+		cas := binary.BigEndian.Uint64(header[16:24])
 
 		KeyLength := binary.BigEndian.Uint16(header[2:4])
 		keyBuf := make([]byte, KeyLength)
@@ -375,7 +386,7 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 			Opcode: Opcode(header[1]),
 			Key:    string(keyBuf),
 			Value:  buf,
-			SetOpt: &SetOpt{Expiration: int(expiration)},
+			SetOpt: &SetOpt{Expiration: int(int32(expiration)), Cas: cas != 0, CasValue: cas},
 			Flags:  extra[:4],
 		}, nil
 	case OpcodeDelete:
@@ -404,7 +415,7 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 			Opcode: Opcode(header[1]),
 			Key:    string(keyBuf),
 			Delta:  int64(delta),
-			SetOpt: &SetOpt{Expiration: int(expiration)},
+			SetOpt: &SetOpt{Expiration: int(int32(expiration))},
 		}, nil
 	case OpcodeTouch:
 		extra := make([]byte, header[4])
@@ -419,7 +430,7 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 			return nil, err
 		}
 
-		return &Request{Opcode: OpcodeTouch, Key: string(keyBuf), SetOpt: &SetOpt{Expiration: int(expiration)}}, nil
+		return &Request{Opcode: OpcodeTouch, Key: string(keyBuf), SetOpt: &SetOpt{Expiration: int(int32(expiration))}}, nil
 	case OpcodeFlush:
 		extra := make([]byte, header[4])
 		if _, err := io.ReadFull(c.connBuf, extra); err != nil {
@@ -750,7 +761,7 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 
 func (s *Server) writeAsciiResponseGet(conn *conn, r *Response) error {
 	flag := uint32(0)
-	if len(r.Flags) > 0 {
+	if len(r.Flags) == 4 {
 		flag = binary.BigEndian.Uint32(r.Flags)
 	}
 	_, err := conn.connBuf.WriteString(
@@ -774,7 +785,7 @@ func (s *Server) writeAsciiResponseGet(conn *conn, r *Response) error {
 }
 func (s *Server) writeAsciiResponseMetaGet(conn *conn, req *Request, r *Response) error {
 	flag := uint32(0)
-	if len(r.Flags) > 0 {
+	if len(r.Flags) == 4 {
 		flag = binary.BigEndian.Uint32(r.Flags)
 	}
 	_, err := conn.connBuf.WriteString(
@@ -858,10 +869,14 @@ func (r *Response) writeAsBinaryProtocol(conn *conn, req *Request) error {
 	if r.Error != nil {
 		binary.BigEndian.PutUint16(header[6:8], statusOf(r.Error))
 		r = &Response{Value: []byte(r.Error.Error())}
+	} else if req.Opcode == OpcodeGet && len(r.Flags) != 4 {
+		r = &Response{Key: r.Key, Flags: make([]byte, 4), Value: r.Value, Cas: r.Cas}
 	}
 	binary.BigEndian.PutUint16(header[2:4], uint16(len(r.Key)))
 	header[4] = uint8(len(r.Flags))
 	binary.BigEndian.PutUint32(header[8:12], uint32(len(r.Key)+len(r.Flags)+len(r.Value)))
+	copy(header[12:16], conn.opaque[:])
+	binary.BigEndian.PutUint64(header[16:24], uint64(r.Cas))
 
 	conn.connBuf.Write(header)
 	if len(r.Flags) > 0 {
-- 
2.43.0


From bf835dd165c397478fd0630c2509d4d98ce5b781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 28/38] fix: meta requests and responses follow the meta
 protocol

Only the first flag of a meta get was used, flags that the server does not
know were ignored although they change what the command does (a touch was
answered like a get), the response named the flags in a way that no client
understands and announced a value even if none was asked for, and quiet
requests were answered. The mn command that ends a multi-get was refused.
---
 server/server.go | 57 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/server/server.go b/server/server.go
index 5390fd3..991f836 100644
--- a/server/server.go
+++ b/server/server.go
@@ -57,6 +57,7 @@ var (
 	metaProtoEnd     = []byte("EN\r\n")
 	metaProtoStored  = []byte("HD")
 	metaProtoDeleted = []byte("HD")
+	metaProtoNoop    = []byte("MN\r\n")
 )
 
 var crlf = []byte("\r\n")
@@ -234,9 +235,9 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		if len(s) < 3 {
 			return nil, errors.New("server: invalid request")
 		}
-		opt := &GetOpt{Meta: true, RequestFlag: s[2]}
-		if len(s[2]) > 0 {
-			for _, f := range s[2] {
+		opt := &GetOpt{Meta: true, RequestFlag: strings.Join(s[2:], "")}
+		if len(opt.RequestFlag) > 0 {
+			for _, f := range opt.RequestFlag {
 				switch f {
 				case 'c':
 					opt.Cas = true
@@ -258,6 +259,8 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 					opt.TTL = true
 				case 'v':
 					opt.Value = true
+				default:
+					return nil, errors.New("server: unknown flag")
 				}
 			}
 		}
@@ -272,7 +275,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 			return nil, err
 		}
 		opt := &SetOpt{Meta: true, Size: int(v)}
-		if len(s[2]) > 0 {
+		if len(tokens) > 0 {
 			for _, f := range tokens {
 				if f == "" {
 					continue
@@ -304,7 +307,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 				case 'q':
 					opt.NoReply = true
 				case 'S':
-					v, err := strconv.ParseInt(f[1:], 10, 32)
+					v, err := strconv.ParseUint(f[1:], 10, 32)
 					if err != nil {
 						return nil, err
 					}
@@ -315,6 +318,8 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 						return nil, err
 					}
 					opt.Expiration = int(v)
+				default:
+					return nil, errors.New("server: unknown flag")
 				}
 			}
 		}
@@ -325,6 +330,8 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		}
 
 		return &Request{Opcode: OpcodeSet, Key: s[1], Value: buf, SetOpt: opt}, nil
+	case "mn":
+		return &Request{Opcode: OpcodeNoop}, nil
 	case "flush_all":
 		return &Request{Opcode: OpcodeFlush}, nil
 	case "version":
@@ -685,7 +692,7 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 					return err
 				}
 			}
-			if len(res) == 0 {
+			if len(res) == 0 && !req.GetOpt.NoReply {
 				conn.connBuf.Write(metaProtoEnd)
 			}
 			if err := conn.connBuf.Flush(); err != nil {
@@ -695,7 +702,16 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 	case OpcodeSet, OpcodeAdd, OpcodeReplace:
 		if res[0].Error == nil {
 			if req.SetOpt.Meta {
+				if req.SetOpt.NoReply {
+					return nil
+				}
 				conn.connBuf.Write(metaProtoStored)
+				if req.SetOpt.Key {
+					conn.connBuf.WriteString(" k" + req.Key)
+				}
+				if req.SetOpt.Opaque != 0 {
+					conn.connBuf.WriteString(" O" + strconv.FormatInt(req.SetOpt.Opaque, 10))
+				}
 				conn.connBuf.Write(crlf)
 				if err := conn.connBuf.Flush(); err != nil {
 					return err
@@ -730,6 +746,11 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 				return err
 			}
 		}
+	case OpcodeNoop:
+		conn.connBuf.Write(metaProtoNoop)
+		if err := conn.connBuf.Flush(); err != nil {
+			return err
+		}
 	case OpcodeVersion:
 		if res[0].Error == nil {
 			conn.connBuf.Write(res[0].Value)
@@ -788,31 +809,29 @@ func (s *Server) writeAsciiResponseMetaGet(conn *conn, req *Request, r *Response
 	if len(r.Flags) == 4 {
 		flag = binary.BigEndian.Uint32(r.Flags)
 	}
-	_, err := conn.connBuf.WriteString(
-		fmt.Sprintf("VA %d %s",
-			len(r.Value),
-			req.GetOpt.RequestFlag,
-		),
-	)
-	if err != nil {
+	header := "HD"
+	if req.GetOpt.Value {
+		header = fmt.Sprintf("VA %d", len(r.Value))
+	}
+	if _, err := conn.connBuf.WriteString(header); err != nil {
 		return err
 	}
 	for _, v := range req.GetOpt.RequestFlag {
 		switch v {
 		case 'c':
-			conn.connBuf.WriteString(" " + strconv.FormatInt(r.Cas, 10))
+			conn.connBuf.WriteString(" c" + strconv.FormatUint(uint64(r.Cas), 10))
 		case 'f':
-			conn.connBuf.WriteString(" " + strconv.FormatInt(int64(flag), 10))
+			conn.connBuf.WriteString(" f" + strconv.FormatInt(int64(flag), 10))
 		case 'k':
-			conn.connBuf.WriteString(" " + req.Key)
+			conn.connBuf.WriteString(" k" + req.Key)
 		case 's':
-			conn.connBuf.WriteString(" " + strconv.FormatInt(int64(len(r.Value)), 10))
+			conn.connBuf.WriteString(" s" + strconv.FormatInt(int64(len(r.Value)), 10))
 		case 't':
-			conn.connBuf.WriteString(" " + strconv.FormatInt(r.TTL, 10))
+			conn.connBuf.WriteString(" t" + strconv.FormatInt(r.TTL, 10))
 		}
 	}
-	conn.connBuf.Write(crlf)
 	if req.GetOpt.Value {
+		conn.connBuf.Write(crlf)
 		if _, err := conn.connBuf.Write(r.Value); err != nil {
 			return err
 		}
-- 
2.43.0


From 3ec8c58212dad6dc7b4464c92afacccbe105f276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:20 +0000
Subject: [PATCH 29/38] fix: get and gets of the text protocol

A get with several keys was refused, the answer to gets had no CAS value, a
line without carriage return ended up in the key, empty keys were passed on
and a delayed flush was carried out at once.
---
 server/server.go | 42 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/server/server.go b/server/server.go
index 991f836..6360f34 100644
--- a/server/server.go
+++ b/server/server.go
@@ -150,24 +150,41 @@ func (c *conn) readDataBlock(n int) ([]byte, error) {
 	return buf[:n], nil
 }
 
+// keys returns the keys of a request with any number of them.
+func keys(s []string) []string {
+	k := make([]string, 0, len(s))
+	for _, v := range s {
+		if v != "" {
+			k = append(k, v)
+		}
+	}
+	return k
+}
+
 func (c *conn) readAsciiRequest() (*Request, error) {
 	line, err := c.connBuf.ReadBytes('\n')
 	if err != nil {
 		return nil, err
 	}
-	s := strings.Split(strings.TrimSuffix(string(line), "\r\n"), " ")
-	if len(s) == 0 {
+	s := strings.Split(strings.TrimSuffix(strings.TrimSuffix(string(line), "\n"), "\r"), " ")
+	if len(s) == 0 || len(s) > 1 && s[1] == "" {
 		return nil, errors.New("server: invalid request")
 	}
 
 	switch s[0] {
 	case "get":
-		if len(s) != 2 {
+		if len(s) < 2 {
 			return nil, errors.New("server: invalid request")
 		}
+		if len(s) > 2 {
+			return &Request{Opcode: OpcodeGet, Keys: keys(s[1:])}, nil
+		}
 		return &Request{Opcode: OpcodeGet, Key: s[1]}, nil
 	case "gets":
-		return &Request{Opcode: OpcodeGet, Keys: s[1:]}, nil
+		if len(s) < 2 {
+			return nil, errors.New("server: invalid request")
+		}
+		return &Request{Opcode: OpcodeGet, Keys: keys(s[1:]), GetOpt: &GetOpt{Cas: true}}, nil
 	case "set", "add", "replace":
 		if len(s) != 5 {
 			return nil, errors.New("server: invalid request")
@@ -333,6 +350,9 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 	case "mn":
 		return &Request{Opcode: OpcodeNoop}, nil
 	case "flush_all":
+		if len(s) != 1 {
+			return nil, errors.New("server: invalid request")
+		}
 		return &Request{Opcode: OpcodeFlush}, nil
 	case "version":
 		return &Request{Opcode: OpcodeVersion}, nil
@@ -676,9 +696,9 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 
 	switch req.Opcode {
 	case OpcodeGet:
-		if req.GetOpt == nil {
+		if req.GetOpt == nil || !req.GetOpt.Meta {
 			for _, r := range res {
-				if err := s.writeAsciiResponseGet(conn, r); err != nil {
+				if err := s.writeAsciiResponseGet(conn, req, r); err != nil {
 					return err
 				}
 			}
@@ -780,13 +800,13 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 	return nil
 }
 
-func (s *Server) writeAsciiResponseGet(conn *conn, r *Response) error {
+func (s *Server) writeAsciiResponseGet(conn *conn, req *Request, r *Response) error {
 	flag := uint32(0)
 	if len(r.Flags) == 4 {
 		flag = binary.BigEndian.Uint32(r.Flags)
 	}
 	_, err := conn.connBuf.WriteString(
-		fmt.Sprintf("VALUE %s %d %d\r\n",
+		fmt.Sprintf("VALUE %s %d %d",
 			r.Key,
 			flag,
 			len(r.Value),
@@ -795,6 +815,12 @@ func (s *Server) writeAsciiResponseGet(conn *conn, r *Response) error {
 	if err != nil {
 		return err
 	}
+	if req.GetOpt != nil && req.GetOpt.Cas {
+		conn.connBuf.WriteString(" " + strconv.FormatUint(uint64(r.Cas), 10))
+	}
+	if _, err := conn.connBuf.Write(crlf); err != nil {
+		return err
+	}
 	if _, err := conn.connBuf.Write(r.Value); err != nil {
 		return err
 	}
-- 
2.43.0


From eb9bd743c63ca58cfa65d47fdee18943d0ab2dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:20 +0000
Subject: [PATCH 30/38] fix: the server survives temporary errors of accept

Running out of file descriptors ended the server.
---
 server/server.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/server/server.go b/server/server.go
index 6360f34..ecee0d2 100644
--- a/server/server.go
+++ b/server/server.go
@@ -11,6 +11,7 @@ import (
 	"strconv"
 	"strings"
 	"sync"
+	"time"
 
 	merrors "go.f110.dev/go-memcached/errors"
 )
@@ -65,6 +66,8 @@ var crlf = []byte("\r\n")
 // binaryStatusInternalError is the status of an error that has none by itself.
 const binaryStatusInternalError uint16 = 0x84
 
+const acceptRetryInterval = 100 * time.Millisecond
+
 var errNoResponse = errors.New("no response")
 
 type Protocol string
@@ -585,6 +588,11 @@ func (s *Server) Serve(l net.Listener) error {
 	for {
 		conn, err := l.Accept()
 		if err != nil {
+			if ne, ok := err.(net.Error); ok && ne.Temporary() {
+				// For example there are too many open files.
+				time.Sleep(acceptRetryInterval)
+				continue
+			}
 			return err
 		}
 
-- 
2.43.0


From 18448e79ae7808bdfc06d9a7b4db5841dd4e9d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:49 +0000
Subject: [PATCH 31/38] fix: the proxy passes on all keys, flags, the CAS value
 and the life of an item

A get with several keys (which is any get of the text client) asked for the
empty key, flags of items were lost on get and flags of a meta set on set, and
noop, which ends a multi-get, was refused.
---
 proxy/replica_pool.go | 48 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/proxy/replica_pool.go b/proxy/replica_pool.go
index d49bf31..58d0f2e 100644
--- a/proxy/replica_pool.go
+++ b/proxy/replica_pool.go
@@ -1,7 +1,9 @@
 package proxy
 
 import (
+	"encoding/binary"
 	"errors"
+	"time"
 
 	"go.f110.dev/go-memcached/client"
 	"go.f110.dev/go-memcached/cluster"
@@ -9,6 +11,10 @@ import (
 	"go.f110.dev/go-memcached/server"
 )
 
+// maxRelativeExpiration is the longest expiration in seconds that is not a
+// point in time.
+const maxRelativeExpiration = 60 * 60 * 24 * 30
+
 type ReplicaProxy struct {
 	pool *cluster.ReplicaPool
 }
@@ -17,9 +23,40 @@ func NewReplicaProxy(pool *cluster.ReplicaPool) *ReplicaProxy {
 	return &ReplicaProxy{pool: pool}
 }
 
+func itemResponse(item *client.Item) *server.Response {
+	// Item has the expiration as it is passed to set, the response has the
+	// remaining time to live.
+	ttl := int64(item.Expiration)
+	switch {
+	case ttl == 0:
+		ttl = -1
+	case ttl > maxRelativeExpiration:
+		ttl -= time.Now().Unix()
+	}
+
+	return &server.Response{
+		Key:   item.Key,
+		Value: item.Value,
+		Flags: item.Flags,
+		Cas:   int64(item.Cas),
+		TTL:   ttl,
+	}
+}
+
 func (p *ReplicaProxy) ServeRequest(req *server.Request) ([]*server.Response, error) {
 	switch req.Opcode {
 	case server.OpcodeGet:
+		if len(req.Keys) > 0 {
+			items, err := p.pool.GetMulti(req.Keys...)
+			if err != nil {
+				return nil, err
+			}
+			res := make([]*server.Response, len(items))
+			for i := range items {
+				res[i] = itemResponse(items[i])
+			}
+			return res, nil
+		}
 		res, err := p.pool.Get(req.Key)
 		if err != nil {
 			if _, ok := err.(*merrors.MemcachedError); ok {
@@ -27,12 +64,19 @@ func (p *ReplicaProxy) ServeRequest(req *server.Request) ([]*server.Response, er
 			}
 			return nil, err
 		}
-		return []*server.Response{{Key: res.Key, Value: res.Value}}, nil
+		return []*server.Response{itemResponse(res)}, nil
+	case server.OpcodeNoop:
+		return []*server.Response{{}}, nil
 	case server.OpcodeSet:
+		flags := req.Flags
+		if req.SetOpt.Meta {
+			flags = make([]byte, 4)
+			binary.BigEndian.PutUint32(flags, uint32(req.SetOpt.Flag))
+		}
 		err := p.pool.Set(&client.Item{
 			Key:        req.Key,
 			Value:      req.Value,
-			Flags:      req.Flags,
+			Flags:      flags,
 			Expiration: req.SetOpt.Expiration,
 			Cas:        req.SetOpt.CasValue,
 		})
-- 
2.43.0


From 969606ab606cb5ad97786be90daf4469fea0e285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:49 +0000
Subject: [PATCH 32/38] fix: the router connects again to servers that were
 away

A connection to a server that broke was never replaced.
---
 cmd/router/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/router/main.go b/cmd/router/main.go
index ff31491..afe2889 100644
--- a/cmd/router/main.go
+++ b/cmd/router/main.go
@@ -29,7 +29,7 @@ type Config struct {
 func connectServers(servers []Server) []*client.ServerWithMetaProtocol {
 	res := make([]*client.ServerWithMetaProtocol, len(servers))
 	for i := range servers {
-		s, err := client.NewServerWithMetaProtocol(context.Background(), servers[i].Name, "tcp", fmt.Sprintf("%s:%d", servers[i].Host, servers[i].Port))
+		s, err := client.NewServerWithMetaProtocol(context.Background(), servers[i].Name, "tcp", fmt.Sprintf("%s:%d", servers[i].Host, servers[i].Port), client.EnableHeartbeat, client.EnableAutoReconnect)
 		if err != nil {
 			panic(err)
 		}
-- 
2.43.0


From eeb9ee014f689f75a0523d4c9a9c08919993b1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:09 +0000
Subject: [PATCH 33/38] fix: counters above the largest int64 are returned, not
 refused

---
 client/server.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/client/server.go b/client/server.go
index 95eff6b..e860f87 100644
--- a/client/server.go
+++ b/client/server.go
@@ -534,11 +534,12 @@ func (s *ServerWithTextProtocol) incrOrDecr(op, key string, delta int) (int64, e
 	case bytes.Equal(b, msgTextProtoNotFound):
 		return 0, merrors.ItemNotFound
 	default:
-		i, err := strconv.ParseInt(string(b[:len(b)-2]), 10, 64)
+		// The counter of the server is unsigned.
+		i, err := strconv.ParseUint(string(b[:len(b)-2]), 10, 64)
 		if err != nil {
 			return 0, err
 		}
-		return i, nil
+		return int64(i), nil
 	}
 }
 
@@ -1296,11 +1297,12 @@ func (s *ServerWithMetaProtocol) incrOrDecr(op, key string, delta int) (int64, e
 	case bytes.Equal(b, msgTextProtoNotFound):
 		return 0, merrors.ItemNotFound
 	default:
-		i, err := strconv.ParseInt(string(b[:len(b)-2]), 10, 64)
+		// The counter of the server is unsigned.
+		i, err := strconv.ParseUint(string(b[:len(b)-2]), 10, 64)
 		if err != nil {
 			return 0, err
 		}
-		return i, nil
+		return int64(i), nil
 	}
 }
 
-- 
2.43.0


From 8773ef35cc174e7500eefc1682446ba38698f6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:24 +0000
Subject: [PATCH 34/38] fix: text client: no malformed reply crashes the
 client, is taken for an answer or leaves the connection in use

---
 client/server.go | 141 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 102 insertions(+), 39 deletions(-)

diff --git a/client/server.go b/client/server.go
index e860f87..9890b0a 100644
--- a/client/server.go
+++ b/client/server.go
@@ -86,7 +86,13 @@ var binaryStatus = map[uint16]string{
 // maxKeyLength is the longest key which the server accepts.
 const maxKeyLength = 250
 
-var errInvalidKey = errors.New("memcached: invalid key")
+// maxPreallocSize is a bit more than the default size limit of the server.
+const maxPreallocSize = 1<<20 + 512
+
+var (
+	errInvalidKey      = errors.New("memcached: invalid key")
+	errInvalidResponse = errors.New("memcached: invalid response")
+)
 
 // validateKey reports keys that can't be sent with the text and meta protocol.
 func validateKey(keys ...string) error {
@@ -217,6 +223,56 @@ func (c *serverConn) Write(b []byte) (int, error) {
 	return n, err
 }
 
+// fail gives the connection up and returns err. It is for replies after which
+// it isn't known where the next one starts.
+func (c *serverConn) fail(err error) error {
+	if c.err == nil {
+		c.err = err
+	}
+	return err
+}
+
+// unexpected returns err, which describes a reply that isn't any of the
+// expected ones. Unless the server refused the request, the connection is
+// given up.
+func (c *serverConn) unexpected(reply []byte, err error) error {
+	for _, v := range []string{"ERROR", "CLIENT_ERROR", "SERVER_ERROR"} {
+		if bytes.HasPrefix(reply, []byte(v)) {
+			return err
+		}
+	}
+	return c.fail(err)
+}
+
+// readLine reads a line of a reply from r, which is the reader of c.
+func (c *serverConn) readLine(r *bufio.Reader) ([]byte, error) {
+	b, err := r.ReadSlice('\n')
+	if err != nil {
+		return nil, c.fail(err)
+	}
+	if !bytes.HasSuffix(b, crlf) {
+		return nil, c.fail(errInvalidResponse)
+	}
+
+	return b, nil
+}
+
+// readBytes reads n bytes. As the length comes from the server, not all of the
+// memory is allocated before the data arrives.
+func readBytes(r io.Reader, n int) ([]byte, error) {
+	if n <= maxPreallocSize {
+		buf := make([]byte, n)
+		_, err := io.ReadFull(r, buf)
+		return buf, err
+	}
+
+	buf := new(bytes.Buffer)
+	if _, err := io.CopyN(buf, r, int64(n)); err != nil {
+		return nil, err
+	}
+	return buf.Bytes(), nil
+}
+
 type ServerWithTextProtocol struct {
 	name    string
 	Network string
@@ -355,7 +411,7 @@ func (s *ServerWithTextProtocol) Get(key string) (*Item, error) {
 	if err := s.conn.Flush(); err != nil {
 		return nil, err
 	}
-	items, err := s.parseGetResponse(s.conn.Reader)
+	items, err := s.parseGetResponse(s.raw, s.conn.Reader)
 	if err != nil {
 		return nil, err
 	}
@@ -363,6 +419,9 @@ func (s *ServerWithTextProtocol) Get(key string) (*Item, error) {
 		return nil, merrors.ItemNotFound
 	}
 	item := items[0]
+	if len(items) > 1 || item.Key != key {
+		return nil, s.raw.fail(errInvalidResponse)
+	}
 	item.Server = s.Name()
 
 	return item, nil
@@ -392,7 +451,7 @@ func (s *ServerWithTextProtocol) GetMulti(keys ...string) ([]*Item, error) {
 	if err := s.conn.Flush(); err != nil {
 		return nil, err
 	}
-	i, err := s.parseGetResponse(s.conn.Reader)
+	i, err := s.parseGetResponse(s.raw, s.conn.Reader)
 	if err != nil {
 		return nil, err
 	}
@@ -404,50 +463,54 @@ func (s *ServerWithTextProtocol) GetMulti(keys ...string) ([]*Item, error) {
 	return items, nil
 }
 
-func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, error) {
+func (s *ServerWithTextProtocol) parseGetResponse(raw *serverConn, r *bufio.Reader) ([]*Item, error) {
 	res := make([]*Item, 0)
 	for {
-		b, err := r.ReadSlice('\n')
+		b, err := raw.readLine(r)
 		if err != nil {
 			return nil, err
 		}
 		if bytes.Equal(b, msgTextProtoEnd) {
 			break
 		}
-		s := bytes.Split(b, []byte(" "))
+		s := bytes.Split(bytes.TrimSuffix(b, crlf), []byte(" "))
 		if !bytes.Equal(s[0], []byte("VALUE")) {
-			return nil, errors.New("memcached: invalid response")
+			return nil, raw.unexpected(b, errInvalidResponse)
+		}
+		if len(s) != 4 && len(s) != 5 {
+			return nil, raw.fail(errInvalidResponse)
 		}
 
-		f, err := strconv.Atoi(string(s[2]))
+		f, err := strconv.ParseUint(string(s[2]), 10, 32)
 		if err != nil {
-			return nil, err
+			return nil, raw.fail(err)
 		}
 		flags := make([]byte, 4)
 		binary.BigEndian.PutUint32(flags, uint32(f))
 
-		var size int
+		size, err := strconv.ParseUint(string(s[3]), 10, 31)
+		if err != nil {
+			return nil, raw.fail(err)
+		}
 		var cas uint64
-		if len(s) == 4 {
-			size, err = strconv.Atoi(string(s[3][:len(s[3])-2]))
-		} else {
-			size, err = strconv.Atoi(string(s[3]))
-			if err == nil {
-				cas, err = strconv.ParseUint(string(s[4][:len(s[4])-2]), 10, 64)
+		if len(s) == 5 {
+			cas, err = strconv.ParseUint(string(s[4]), 10, 64)
+			if err != nil {
+				return nil, raw.fail(err)
 			}
 		}
-		if err != nil {
-			return nil, err
-		}
 
-		buf := make([]byte, size+2)
 		item := &Item{
 			Key:   string(s[1]),
 			Flags: flags,
 			Cas:   cas,
 		}
-		if _, err := io.ReadFull(r, buf); err != nil {
-			return nil, err
+		buf, err := readBytes(r, int(size)+len(crlf))
+		if err != nil {
+			return nil, raw.fail(err)
+		}
+		if !bytes.HasSuffix(buf, crlf) {
+			return nil, raw.fail(errInvalidResponse)
 		}
 		item.Value = buf[:size]
 		res = append(res, item)
@@ -479,7 +542,7 @@ func (s *ServerWithTextProtocol) Delete(key string) error {
 	if err := s.conn.Flush(); err != nil {
 		return err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.raw.readLine(s.conn.Reader)
 	if err != nil {
 		return err
 	}
@@ -490,7 +553,7 @@ func (s *ServerWithTextProtocol) Delete(key string) error {
 	case bytes.Equal(b, msgTextProtoNotFound):
 		return merrors.ItemNotFound
 	default:
-		return fmt.Errorf("memcached: failed delete: %s", string(b))
+		return s.raw.unexpected(b, fmt.Errorf("memcached: failed delete: %s", string(b)))
 	}
 }
 
@@ -525,7 +588,7 @@ func (s *ServerWithTextProtocol) incrOrDecr(op, key string, delta int) (int64, e
 	if err := s.conn.Flush(); err != nil {
 		return 0, err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.raw.readLine(s.conn.Reader)
 	if err != nil {
 		return 0, err
 	}
@@ -535,9 +598,9 @@ func (s *ServerWithTextProtocol) incrOrDecr(op, key string, delta int) (int64, e
 		return 0, merrors.ItemNotFound
 	default:
 		// The counter of the server is unsigned.
-		i, err := strconv.ParseUint(string(b[:len(b)-2]), 10, 64)
+		i, err := strconv.ParseUint(string(bytes.TrimSuffix(b, crlf)), 10, 64)
 		if err != nil {
-			return 0, err
+			return 0, s.raw.unexpected(b, err)
 		}
 		return int64(i), nil
 	}
@@ -566,7 +629,7 @@ func (s *ServerWithTextProtocol) Touch(key string, expiration int) error {
 	if err := s.conn.Flush(); err != nil {
 		return err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.raw.readLine(s.conn.Reader)
 	if err != nil {
 		return err
 	}
@@ -577,7 +640,7 @@ func (s *ServerWithTextProtocol) Touch(key string, expiration int) error {
 	case bytes.Equal(b, msgTextProtoNotFound):
 		return merrors.ItemNotFound
 	default:
-		return fmt.Errorf("memcached: failed touch: %s", string(b))
+		return s.raw.unexpected(b, fmt.Errorf("memcached: failed touch: %s", string(b)))
 	}
 }
 
@@ -620,7 +683,7 @@ func (s *ServerWithTextProtocol) Set(item *Item) error {
 	if err := s.conn.Flush(); err != nil {
 		return err
 	}
-	buf, err := s.conn.ReadSlice('\n')
+	buf, err := s.raw.readLine(s.conn.Reader)
 	if err != nil {
 		return err
 	}
@@ -633,7 +696,7 @@ func (s *ServerWithTextProtocol) Set(item *Item) error {
 	case bytes.Equal(buf, msgTextProtoNotFound):
 		return merrors.ItemNotFound
 	default:
-		return fmt.Errorf("memcached: failed set: %s", string(buf))
+		return s.raw.unexpected(buf, fmt.Errorf("memcached: failed set: %s", string(buf)))
 	}
 }
 
@@ -667,7 +730,7 @@ func (s *ServerWithTextProtocol) Add(item *Item) error {
 		return err
 	}
 
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.raw.readLine(s.conn.Reader)
 	if err != nil {
 		return err
 	}
@@ -677,7 +740,7 @@ func (s *ServerWithTextProtocol) Add(item *Item) error {
 	case bytes.Equal(b, msgTextProtoNotStored):
 		return merrors.ItemExists
 	default:
-		return fmt.Errorf("memcached: failed add: %s", string(b))
+		return s.raw.unexpected(b, fmt.Errorf("memcached: failed add: %s", string(b)))
 	}
 }
 
@@ -711,7 +774,7 @@ func (s *ServerWithTextProtocol) Replace(item *Item) error {
 		return err
 	}
 
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.raw.readLine(s.conn.Reader)
 	if err != nil {
 		return err
 	}
@@ -721,7 +784,7 @@ func (s *ServerWithTextProtocol) Replace(item *Item) error {
 	case bytes.Equal(b, msgTextProtoNotStored):
 		return merrors.ItemNotFound
 	default:
-		return fmt.Errorf("memcached: failed replace: %s", string(b))
+		return s.raw.unexpected(b, fmt.Errorf("memcached: failed replace: %s", string(b)))
 	}
 }
 
@@ -744,7 +807,7 @@ func (s *ServerWithTextProtocol) Flush() error {
 	if err := s.conn.Flush(); err != nil {
 		return err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.raw.readLine(s.conn.Reader)
 	if err != nil {
 		return err
 	}
@@ -753,7 +816,7 @@ func (s *ServerWithTextProtocol) Flush() error {
 	case bytes.Equal(b, msgTextProtoOk):
 		return nil
 	default:
-		return fmt.Errorf("memcached: %s", string(b[:len(b)-2]))
+		return s.raw.unexpected(b, fmt.Errorf("memcached: %s", string(b[:len(b)-2])))
 	}
 }
 
@@ -777,7 +840,7 @@ func (s *ServerWithTextProtocol) Version() (string, error) {
 		return "", err
 	}
 
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.raw.readLine(s.conn.Reader)
 	if err != nil {
 		return "", err
 	}
@@ -785,7 +848,7 @@ func (s *ServerWithTextProtocol) Version() (string, error) {
 	if bytes.HasPrefix(b, []byte("VERSION ")) {
 		return strings.TrimSuffix(strings.TrimPrefix(string(b), "VERSION "), "\r\n"), nil
 	}
-	return "", fmt.Errorf("memcached: failed version: %s", string(b))
+	return "", s.raw.unexpected(b, fmt.Errorf("memcached: failed version: %s", string(b)))
 }
 
 type ServerWithMetaProtocol struct {
-- 
2.43.0


From 30e934fc5df261cbd8fefb30c477262efeaf7df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:24 +0000
Subject: [PATCH 35/38] fix: meta client: no malformed reply crashes the
 client, is taken for an answer or leaves the connection in use

---
 client/server.go | 139 +++++++++++++++++++++--------------------------
 1 file changed, 63 insertions(+), 76 deletions(-)

diff --git a/client/server.go b/client/server.go
index 9890b0a..316116e 100644
--- a/client/server.go
+++ b/client/server.go
@@ -974,6 +974,9 @@ func (s *ServerWithMetaProtocol) Get(key string) (*Item, error) {
 
 	item, err := s.parseGetResponse(s.conn)
 	if err != nil {
+		if err == errMetaNoop {
+			s.raw.fail(err)
+		}
 		return nil, err
 	}
 	item.Key = key
@@ -1024,19 +1027,22 @@ MultiRead:
 	for {
 		item, err := s.parseGetResponse(s.conn)
 		if err != nil {
-			switch err {
-			case merrors.ItemNotFound:
+			switch {
+			case s.raw.err != nil:
+				return nil, err
+			case err == merrors.ItemNotFound:
 				continue
-			case errMetaNoop:
+			case err == errMetaNoop:
 				break MultiRead
-			case errMetaInvalidGetResponse:
+			default:
 				// The replies up to MN still have to be read.
 				resErr = err
 				continue
-			default:
-				return nil, err
 			}
 		}
+		if item.Key == "" {
+			return nil, s.raw.fail(errMetaInvalidGetResponse)
+		}
 		items = append(items, item)
 	}
 
@@ -1047,7 +1053,7 @@ MultiRead:
 }
 
 func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item, error) {
-	b, err := conn.ReadSlice('\n')
+	b, err := s.raw.readLine(conn.Reader)
 	if err != nil {
 		return nil, err
 	}
@@ -1057,55 +1063,31 @@ func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item
 	if bytes.Equal(b, msgMetaProtoNoop) {
 		return nil, errMetaNoop
 	}
-	if !bytes.HasPrefix(b, []byte("VA")) {
-		return nil, errMetaInvalidGetResponse
+	// VA <size> <flags>*
+	v := bytes.Split(bytes.TrimSuffix(b, crlf), []byte(" "))
+	if len(v) < 2 || !bytes.Equal(v[0], []byte("VA")) {
+		return nil, s.raw.unexpected(b, errMetaInvalidGetResponse)
+	}
+	size, err := strconv.ParseUint(string(v[1]), 10, 31)
+	if err != nil {
+		return nil, s.raw.fail(err)
 	}
-
 	item := &Item{}
-	size := 0
-	// state:
-	//    1 - Reading size
-	//    2 - Reading flag name
-	//    3 - Reading token
-	state := 1 // Read size
-	var flagName byte
-	var startIndex int
-	for i := range b[3:] {
-		switch b[3+i] {
-		case ' ':
-			switch state {
-			case 1: // Reading size
-				s, err := strconv.ParseInt(string(b[3:3+i]), 10, 32)
-				if err != nil {
-					return nil, err
-				}
-				size = int(s)
-				state = 2
-			case 3: // Reading token
-				if err := s.readGetFlagToken(flagName, b[startIndex:3+i], item); err != nil {
-					return nil, err
-				}
-				state = 2
-			}
-		case '\r':
-			if state == 3 {
-				if err := s.readGetFlagToken(flagName, b[startIndex:3+i], item); err != nil {
-					return nil, err
-				}
-			}
-		case 'f', 'c', 't', 'k':
-			switch state {
-			case 2:
-				flagName = b[3+i]
-				state = 3
-				startIndex = 3 + i + 1
-			}
+	for _, f := range v[2:] {
+		if len(f) == 0 {
+			continue
+		}
+		if err := s.readGetFlagToken(f[0], f[1:], item); err != nil {
+			return nil, s.raw.fail(err)
 		}
 	}
 
-	buf := make([]byte, size+2)
-	if _, err := io.ReadFull(conn, buf); err != nil {
-		return nil, err
+	buf, err := readBytes(conn, int(size)+len(crlf))
+	if err != nil {
+		return nil, s.raw.fail(err)
+	}
+	if !bytes.HasSuffix(buf, crlf) {
+		return nil, s.raw.fail(errMetaInvalidGetResponse)
 	}
 	item.Value = buf[:size]
 
@@ -1148,6 +1130,11 @@ func (s *ServerWithMetaProtocol) readGetFlagToken(flagName byte, v []byte, item
 	return nil
 }
 
+// isMetaStatus reports whether the reply has the status code.
+func isMetaStatus(reply, code []byte) bool {
+	return bytes.HasPrefix(reply, code) && (reply[len(code)] == ' ' || reply[len(code)] == '\r')
+}
+
 func (s *ServerWithMetaProtocol) Set(item *Item) error {
 	if err := validateKey(item.Key); err != nil {
 		return err
@@ -1183,23 +1170,23 @@ func (s *ServerWithMetaProtocol) Set(item *Item) error {
 	if err := s.conn.Flush(); err != nil {
 		return err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.raw.readLine(s.conn.Reader)
 	if err != nil {
 		return err
 	}
 	switch {
-	case bytes.HasPrefix(b, msgMetaProtoStored):
+	case isMetaStatus(b, msgMetaProtoStored):
 		return nil
-	case bytes.HasPrefix(b, msgMetaProtoNotStored):
+	case isMetaStatus(b, msgMetaProtoNotStored):
 		return errors.New("memcached: not stored")
-	case bytes.HasPrefix(b, msgMetaProtoExists):
+	case isMetaStatus(b, msgMetaProtoExists):
 		return merrors.ItemExists
-	case bytes.HasPrefix(b, msgMetaProtoNotFound):
+	case isMetaStatus(b, msgMetaProtoNotFound):
 		return merrors.ItemNotFound
 	}
 
 	log.Print(string(b))
-	return errors.New("memcached: failed set")
+	return s.raw.unexpected(b, errors.New("memcached: failed set"))
 }
 
 func (s *ServerWithMetaProtocol) Add(item *Item) error {
@@ -1229,7 +1216,7 @@ func (s *ServerWithMetaProtocol) Add(item *Item) error {
 		return err
 	}
 
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.raw.readLine(s.conn.Reader)
 	if err != nil {
 		return err
 	}
@@ -1239,7 +1226,7 @@ func (s *ServerWithMetaProtocol) Add(item *Item) error {
 	case bytes.Equal(b, msgTextProtoNotStored):
 		return merrors.ItemExists
 	default:
-		return fmt.Errorf("memcached: failed add: %s", string(b))
+		return s.raw.unexpected(b, fmt.Errorf("memcached: failed add: %s", string(b)))
 	}
 }
 
@@ -1270,7 +1257,7 @@ func (s *ServerWithMetaProtocol) Replace(item *Item) error {
 		return err
 	}
 
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.raw.readLine(s.conn.Reader)
 	if err != nil {
 		return err
 	}
@@ -1280,7 +1267,7 @@ func (s *ServerWithMetaProtocol) Replace(item *Item) error {
 	case bytes.Equal(b, msgTextProtoNotStored):
 		return merrors.ItemNotFound
 	default:
-		return fmt.Errorf("memcached: failed replace: %s", string(b))
+		return s.raw.unexpected(b, fmt.Errorf("memcached: failed replace: %s", string(b)))
 	}
 }
 
@@ -1303,20 +1290,20 @@ func (s *ServerWithMetaProtocol) Delete(key string) error {
 	if err := s.conn.Flush(); err != nil {
 		return err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.raw.readLine(s.conn.Reader)
 	if err != nil {
 		return err
 	}
 
 	switch {
-	case bytes.HasPrefix(b, msgMetaProtoDeleted):
+	case isMetaStatus(b, msgMetaProtoDeleted):
 		return nil
-	case bytes.HasPrefix(b, msgMetaProtoNotFound):
+	case isMetaStatus(b, msgMetaProtoNotFound):
 		return nil
-	case bytes.HasPrefix(b, msgMetaProtoExists):
+	case isMetaStatus(b, msgMetaProtoExists):
 		return merrors.ItemNotFound
 	default:
-		return errors.New("memcached: failed delete")
+		return s.raw.unexpected(b, errors.New("memcached: failed delete"))
 	}
 }
 
@@ -1351,7 +1338,7 @@ func (s *ServerWithMetaProtocol) incrOrDecr(op, key string, delta int) (int64, e
 	if err := s.conn.Flush(); err != nil {
 		return 0, err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.raw.readLine(s.conn.Reader)
 	if err != nil {
 		return 0, err
 	}
@@ -1361,9 +1348,9 @@ func (s *ServerWithMetaProtocol) incrOrDecr(op, key string, delta int) (int64, e
 		return 0, merrors.ItemNotFound
 	default:
 		// The counter of the server is unsigned.
-		i, err := strconv.ParseUint(string(b[:len(b)-2]), 10, 64)
+		i, err := strconv.ParseUint(string(bytes.TrimSuffix(b, crlf)), 10, 64)
 		if err != nil {
-			return 0, err
+			return 0, s.raw.unexpected(b, err)
 		}
 		return int64(i), nil
 	}
@@ -1389,18 +1376,18 @@ func (s *ServerWithMetaProtocol) Touch(key string, expiration int) error {
 		return err
 	}
 
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.raw.readLine(s.conn.Reader)
 	if err != nil {
 		return err
 	}
 
 	switch {
-	case bytes.HasPrefix(b, msgMetaProtoTouched):
+	case isMetaStatus(b, msgMetaProtoTouched):
 		return nil
 	case bytes.Equal(b, msgMetaProtoEnd):
 		return merrors.ItemNotFound
 	default:
-		return errors.New("memcached: failed touch")
+		return s.raw.unexpected(b, errors.New("memcached: failed touch"))
 	}
 }
 
@@ -1419,7 +1406,7 @@ func (s *ServerWithMetaProtocol) Flush() error {
 	if err := s.conn.Flush(); err != nil {
 		return err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.raw.readLine(s.conn.Reader)
 	if err != nil {
 		return err
 	}
@@ -1428,7 +1415,7 @@ func (s *ServerWithMetaProtocol) Flush() error {
 	case bytes.Equal(b, msgTextProtoOk):
 		return nil
 	default:
-		return fmt.Errorf("memcached: %s", string(b[:len(b)-2]))
+		return s.raw.unexpected(b, fmt.Errorf("memcached: %s", string(b[:len(b)-2])))
 	}
 }
 
@@ -1448,7 +1435,7 @@ func (s *ServerWithMetaProtocol) Version() (string, error) {
 		return "", err
 	}
 
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.raw.readLine(s.conn.Reader)
 	if err != nil {
 		return "", err
 	}
@@ -1456,7 +1443,7 @@ func (s *ServerWithMetaProtocol) Version() (string, error) {
 		return strings.TrimSuffix(strings.TrimPrefix(string(b), "VERSION "), "\r\n"), nil
 	}
 
-	return "", fmt.Errorf("memcached: failed version: %s", string(b))
+	return "", s.raw.unexpected(b, fmt.Errorf("memcached: failed version: %s", string(b)))
 }
 
 func (s *ServerWithMetaProtocol) Close() error {
-- 
2.43.0


From 9ef7a8899e5b3ad5c064c917ff8f8a995c86817f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:24 +0000
Subject: [PATCH 36/38] fix: binary client: no malformed response crashes the
 client, is taken for an answer or leaves the connection in use

---
 client/server.go | 122 +++++++++++++++++------------------------------
 1 file changed, 44 insertions(+), 78 deletions(-)

diff --git a/client/server.go b/client/server.go
index 316116e..de21a6c 100644
--- a/client/server.go
+++ b/client/server.go
@@ -1601,12 +1601,8 @@ func (s *ServerWithBinaryProtocol) Get(key string) (*Item, error) {
 	resHeader := s.resHeaderPool.Get().(*binaryResponseHeader)
 	defer s.resHeaderPool.Put(resHeader)
 
-	if err := resHeader.Read(s.conn); err != nil {
-		return nil, err
-	}
-
-	buf := make([]byte, resHeader.TotalBodyLength)
-	if _, err := io.ReadFull(s.conn, buf); err != nil {
+	buf, err := s.readResponse(resHeader, binaryOpcodeGet)
+	if err != nil {
 		return nil, err
 	}
 
@@ -1622,9 +1618,12 @@ func (s *ServerWithBinaryProtocol) Get(key string) (*Item, error) {
 		return nil, fmt.Errorf("memcached: unknown error %d", resHeader.Status)
 	}
 
+	if resHeader.ExtraLength != 4 {
+		return nil, s.raw.fail(errInvalidResponse)
+	}
 	return &Item{
 		Key:   key,
-		Value: buf[uint16(resHeader.ExtraLength)+resHeader.KeyLength:],
+		Value: buf[int(resHeader.ExtraLength)+int(resHeader.KeyLength):],
 		Flags: buf[:resHeader.ExtraLength],
 		Cas:   resHeader.CAS,
 	}, nil
@@ -1686,18 +1685,14 @@ func (s *ServerWithBinaryProtocol) getMulti(keys []string) ([]*Item, error) {
 	resHeader := s.resHeaderPool.Get().(*binaryResponseHeader)
 	var resErr error
 	for {
-		if err := resHeader.Read(s.conn); err != nil {
+		buf, err := s.readResponse(resHeader, binaryOpcodeGetKQ, binaryOpcodeNoop)
+		if err != nil {
 			return nil, err
 		}
 		if resHeader.Opcode == binaryOpcodeNoop {
 			break
 		}
 
-		buf := make([]byte, resHeader.TotalBodyLength)
-		if _, err := io.ReadFull(s.conn, buf); err != nil {
-			return nil, err
-		}
-
 		if resHeader.Status != 0 {
 			// The replies up to Noop still have to be read.
 			if v, ok := binaryStatus[resHeader.Status]; ok {
@@ -1708,9 +1703,12 @@ func (s *ServerWithBinaryProtocol) getMulti(keys []string) ([]*Item, error) {
 			continue
 		}
 
+		if resHeader.ExtraLength != 4 || resHeader.KeyLength == 0 {
+			return nil, s.raw.fail(errInvalidResponse)
+		}
 		items = append(items, &Item{
-			Key:   string(buf[resHeader.ExtraLength : uint16(resHeader.ExtraLength)+resHeader.KeyLength]),
-			Value: buf[uint16(resHeader.ExtraLength)+resHeader.KeyLength:],
+			Key:   string(buf[resHeader.ExtraLength : int(resHeader.ExtraLength)+int(resHeader.KeyLength)]),
+			Value: buf[int(resHeader.ExtraLength)+int(resHeader.KeyLength):],
 			Flags: buf[:resHeader.ExtraLength],
 			Cas:   resHeader.CAS,
 		})
@@ -1755,13 +1753,7 @@ func (s *ServerWithBinaryProtocol) Set(item *Item) error {
 
 	resHeader := s.resHeaderPool.Get().(*binaryResponseHeader)
 	defer s.resHeaderPool.Put(resHeader)
-	if err := resHeader.Read(s.conn); err != nil {
-		return err
-	}
-	if resHeader.Opcode != binaryOpcodeSet {
-		return errors.New("memcached: invalid response")
-	}
-	if _, err := io.CopyN(io.Discard, s.conn, int64(resHeader.TotalBodyLength)); err != nil {
+	if _, err := s.readResponse(resHeader, binaryOpcodeSet); err != nil {
 		return err
 	}
 
@@ -1817,13 +1809,7 @@ func (s *ServerWithBinaryProtocol) Add(item *Item) error {
 
 	resHeader := s.resHeaderPool.Get().(*binaryResponseHeader)
 	defer s.resHeaderPool.Put(resHeader)
-	if err := resHeader.Read(s.conn); err != nil {
-		return err
-	}
-	if resHeader.Opcode != binaryOpcodeAdd {
-		return errors.New("memcached: invalid response")
-	}
-	if _, err := io.CopyN(io.Discard, s.conn, int64(resHeader.TotalBodyLength)); err != nil {
+	if _, err := s.readResponse(resHeader, binaryOpcodeAdd); err != nil {
 		return err
 	}
 
@@ -1876,15 +1862,7 @@ func (s *ServerWithBinaryProtocol) Replace(item *Item) error {
 
 	resHeader := s.resHeaderPool.Get().(*binaryResponseHeader)
 	defer s.resHeaderPool.Put(resHeader)
-	if err := resHeader.Read(s.conn); err != nil {
-		return err
-	}
-	if resHeader.Opcode != binaryOpcodeReplace {
-		return errors.New("memcached: invalid response")
-	}
-
-	buf := make([]byte, resHeader.TotalBodyLength)
-	if _, err := io.ReadFull(s.conn, buf); err != nil {
+	if _, err := s.readResponse(resHeader, binaryOpcodeReplace); err != nil {
 		return err
 	}
 
@@ -1934,15 +1912,7 @@ func (s *ServerWithBinaryProtocol) Delete(key string) error {
 
 	resHeader := s.resHeaderPool.Get().(*binaryResponseHeader)
 	defer s.resHeaderPool.Put(resHeader)
-	if err := resHeader.Read(s.conn); err != nil {
-		return err
-	}
-	if resHeader.Opcode != binaryOpcodeDelete {
-		return errors.New("memcached: invalid response")
-	}
-
-	buf := make([]byte, resHeader.TotalBodyLength)
-	if _, err := io.ReadFull(s.conn, buf); err != nil {
+	if _, err := s.readResponse(resHeader, binaryOpcodeDelete); err != nil {
 		return err
 	}
 
@@ -2008,21 +1978,10 @@ func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int
 	resHeader := s.resHeaderPool.Get().(*binaryResponseHeader)
 	defer s.resHeaderPool.Put(resHeader)
 
-	if err := resHeader.Read(s.conn); err != nil {
+	body, err := s.readResponse(resHeader, opcode)
+	if err != nil {
 		return 0, err
 	}
-	if resHeader.Opcode != opcode {
-		return 0, errors.New("memcached: invalid response")
-	}
-
-	var body []byte
-	if resHeader.TotalBodyLength > 0 {
-		buf := make([]byte, resHeader.TotalBodyLength)
-		if _, err := io.ReadFull(s.conn, buf); err != nil {
-			return 0, err
-		}
-		body = buf
-	}
 
 	if resHeader.Status == 1 { // key not found
 		return 0, merrors.ItemNotFound
@@ -2039,6 +1998,9 @@ func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int
 		}
 	}
 
+	if len(body) != 8 {
+		return 0, s.raw.fail(errInvalidResponse)
+	}
 	return int64(binary.BigEndian.Uint64(body)), nil
 }
 
@@ -2077,10 +2039,7 @@ func (s *ServerWithBinaryProtocol) Touch(key string, expiration int) error {
 	resHeader := s.resHeaderPool.Get().(*binaryResponseHeader)
 	defer s.resHeaderPool.Put(resHeader)
 
-	if err := resHeader.Read(s.conn); err != nil {
-		return err
-	}
-	if _, err := io.CopyN(io.Discard, s.conn, int64(resHeader.TotalBodyLength)); err != nil {
+	if _, err := s.readResponse(resHeader, binaryOpcodeTouch); err != nil {
 		return err
 	}
 
@@ -2121,13 +2080,7 @@ func (s *ServerWithBinaryProtocol) Flush() error {
 	resHeader := s.resHeaderPool.Get().(*binaryResponseHeader)
 	defer s.resHeaderPool.Put(resHeader)
 
-	if err := resHeader.Read(s.conn); err != nil {
-		return err
-	}
-	if resHeader.Opcode != binaryOpcodeFlush {
-		return errors.New("memcached: invalid response")
-	}
-	if _, err := io.CopyN(io.Discard, s.conn, int64(resHeader.TotalBodyLength)); err != nil {
+	if _, err := s.readResponse(resHeader, binaryOpcodeFlush); err != nil {
 		return err
 	}
 
@@ -2163,12 +2116,8 @@ func (s *ServerWithBinaryProtocol) Version() (string, error) {
 
 	resHeader := s.resHeaderPool.Get().(*binaryResponseHeader)
 	defer s.resHeaderPool.Put(resHeader)
-	if err := resHeader.Read(s.conn); err != nil {
-		return "", err
-	}
-
-	buf := make([]byte, resHeader.TotalBodyLength)
-	if _, err := io.ReadFull(s.conn, buf); err != nil {
+	buf, err := s.readResponse(resHeader, binaryOpcodeVersion)
+	if err != nil {
 		return "", err
 	}
 
@@ -2206,6 +2155,23 @@ func (s *ServerWithBinaryProtocol) putReqHeader(h *binaryRequestHeader) {
 	s.reqHeaderPool.Put(h)
 }
 
+// readResponse reads the response to a request with one of the opcodes and
+// returns its body.
+func (s *ServerWithBinaryProtocol) readResponse(h *binaryResponseHeader, opcodes ...byte) ([]byte, error) {
+	if err := h.Read(s.conn); err != nil {
+		return nil, s.raw.fail(err)
+	}
+	if bytes.IndexByte(opcodes, h.Opcode) == -1 || uint32(h.ExtraLength)+uint32(h.KeyLength) > h.TotalBodyLength {
+		return nil, s.raw.fail(errInvalidResponse)
+	}
+	body, err := readBytes(s.conn, int(h.TotalBodyLength))
+	if err != nil {
+		return nil, s.raw.fail(err)
+	}
+
+	return body, nil
+}
+
 type binaryRequestHeader struct {
 	Opcode          byte
 	KeyLength       uint16
@@ -2273,7 +2239,7 @@ func (h *binaryResponseHeader) Read(r io.Reader) error {
 		return err
 	}
 	if h.buf[0] != magicResponse {
-		return errors.New("memcached: invalid response")
+		return errInvalidResponse
 	}
 	h.Opcode = h.buf[1]
 	h.KeyLength = binary.BigEndian.Uint16(h.buf[2:4])
-- 
2.43.0


From e1c3cf23653ab5da9e206cb2a0e0ec87ebefe71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:29 +0000
Subject: [PATCH 37/38] fix: text client: an item without a key is a malformed
 reply

---
 client/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/server.go b/client/server.go
index de21a6c..ba4f26b 100644
--- a/client/server.go
+++ b/client/server.go
@@ -477,7 +477,7 @@ func (s *ServerWithTextProtocol) parseGetResponse(raw *serverConn, r *bufio.Read
 		if !bytes.Equal(s[0], []byte("VALUE")) {
 			return nil, raw.unexpected(b, errInvalidResponse)
 		}
-		if len(s) != 4 && len(s) != 5 {
+		if len(s) != 4 && len(s) != 5 || len(s[1]) == 0 {
 			return nil, raw.fail(errInvalidResponse)
 		}
 
-- 
2.43.0


From 6315d34fefb2c33a7e82047021c112863c672ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:45 +0000
Subject: [PATCH 38/38] fix: clients: an item that wasn't requested is a
 malformed reply

---
 client/server.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/client/server.go b/client/server.go
index ba4f26b..a7989bd 100644
--- a/client/server.go
+++ b/client/server.go
@@ -257,6 +257,23 @@ func (c *serverConn) readLine(r *bufio.Reader) ([]byte, error) {
 	return b, nil
 }
 
+// checkItems gives the connection up if the server returned an item which
+// wasn't requested.
+func (c *serverConn) checkItems(keys []string, items []*Item) error {
+	requested := make(map[string]int, len(keys))
+	for _, key := range keys {
+		requested[key]++
+	}
+	for _, item := range items {
+		if requested[item.Key] == 0 {
+			return c.fail(errInvalidResponse)
+		}
+		requested[item.Key]--
+	}
+
+	return nil
+}
+
 // readBytes reads n bytes. As the length comes from the server, not all of the
 // memory is allocated before the data arrives.
 func readBytes(r io.Reader, n int) ([]byte, error) {
@@ -455,6 +472,9 @@ func (s *ServerWithTextProtocol) GetMulti(keys ...string) ([]*Item, error) {
 	if err != nil {
 		return nil, err
 	}
+	if err := s.raw.checkItems(keys, i); err != nil {
+		return nil, err
+	}
 	for _, v := range i {
 		v.Server = s.Name()
 	}
@@ -1003,6 +1023,9 @@ func (s *ServerWithMetaProtocol) GetMulti(keys ...string) ([]*Item, error) {
 		if err != nil {
 			return nil, err
 		}
+		if err := s.raw.checkItems(keys[:n], v); err != nil {
+			return nil, err
+		}
 		items = append(items, v...)
 		keys = keys[n:]
 	}
@@ -1649,6 +1672,9 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 		if err != nil {
 			return nil, err
 		}
+		if err := s.raw.checkItems(keys[:n], v); err != nil {
+			return nil, err
+		}
 		items = append(items, v...)
 		keys = keys[n:]
 	}
-- 
2.43.0


from maker import *
C=['cache']
bug('c01-int32-text','C01',[('cache/cachestring.go','''	case int:
		str = strconv.Itoa(value)
''','''	case int:
		str = strconv.Itoa(int(int32(value)))
''')],'an integer-looking value outside the 32-bit range','Values such as "3000000000" read back as another number',
'''	c := cache.New()
	c.Set("k", "3000000000")
	if v, err := c.Get("k"); v != "3000000000" || err != nil {
		fail("Get = %q, %v", v, err)
	}
''',C)
bug('c01-hash-notation','C01',[('cache/cachehash.go','''	if _, loaded := he.LoadOrStore(field, tryInt64(value)); !loaded {
		n = 1
	} else {
		he.Store(field, tryInt64(value))
	}
''','''	if old, loaded := he.LoadOrStore(field, tryInt64(value)); !loaded {
		n = 1
	} else if str, err := fmtString(old); err != nil || len(str) != len(value) || str < value {
		// nothing to do when the value is the same
		he.Store(field, tryInt64(value))
	}
''')],'overwriting a hash field with a smaller value of the same length','HSet and HMSet lose the new value of a field',
'''	c := cache.New()
	c.HSet("k", "f", "bb")
	c.HSet("k", "f", "ba")
	if v, err := c.HGet("k", "f"); v != "ba" || err != nil {
		fail("HGet = %q, %v", v, err)
	}
''',C)
bug('c02-getrange-end','C02',[('cache/cachestring.go','''	if end < 0 {
		end = len(oldStr) + end
	}
''','''	if end < 0 {
		end = len(oldStr) + end
	}
	if end < 0 {
		end = 0
	}
''')],'a negative end more than the length before the end of the value','GetRange returns the first byte where the range is empty',
'''	c := cache.New()
	c.Set("k", "abc")
	if v, err := c.GetRange("k", 0, -5); v != "" || err != nil {
		fail("GetRange = %q, %v", v, err)
	}
	if v, err := c.GetRange("k", -2, -1); v != "bc" || err != nil {
		fail("GetRange = %q, %v", v, err)
	}
''',C)
bug('c02-setrange-tail','C02',[('cache/cachestring.go','''		p := pos + i
		if p < len(str) {
			str[p] = replace[i]
		} else {
			str = append(str, replace[i])
		}
	}
''','''		p := pos + i
		if p < len(str) {
			str[p] = replace[i]
		} else {
			// the rest is past the end
			str = append(str, replace[len(str)-pos:]...)
			str = str[:len(oldStr)+len(replace)-i]
			break
		}
	}
''')],'SetRange that starts after the end of the present value','SetRange past the end drops padding or panics',
'''	c := cache.New()
	c.Set("k", "ab")
	if n, err := c.SetRange("k", 1, "xyz"); n != 4 || err != nil {
		fail("SetRange = %d, %v", n, err)
	}
	c.Set("k", "ab")
	n, err := c.SetRange("k", 4, "xy")
	v, _ := c.Get("k")
	if n != 6 || err != nil || v != "ab\\x00\\x00xy" {
		fail("SetRange = %d, %v, then %q", n, err, v)
	}
''',C)
bug('c03-absent-int32','C03',[('cache/cachestring.go','''		val = t + increment
		n = int(t + increment)
	case int32:''','''		val = t + increment
		if n = int(t + increment); n < 0 {
			// keep the small encoding
			val = int32(n)
		}
	case int32:''')],'a counter first created by IncrBy that goes below -2^31','The counter returns the right sum and stores another one',
'''	c := cache.New()
	c.IncrBy("k", 1)
	if n, err := c.IncrBy("k", -3000000001); n != -3000000000 || err != nil {
		fail("IncrBy = %d, %v", n, err)
	}
	if v, err := c.Get("k"); v != "-3000000000" || err != nil {
		fail("Get = %q, %v", v, err)
	}
''',C)
bug('c04-integral-float','C04',[('cache/cachestring.go','''	case int:
		f := float64(val) + increment
		c.dataDict.Store(key, f)
		return f, nil
	case int64:''','''	case int:
		f := float64(val) + increment
		if f == float64(int64(f)) {
			c.dataDict.Store(key, int(f))
		} else {
			c.dataDict.Store(key, float64(float32(f)))
		}
		return f, nil
	case int64:''')],'a fraction that is not a 32-bit float added to an integer','The stored sum is rounded to single precision',
'''	c := cache.New()
	c.Set("k", "10")
	if f, err := c.IncrByFloat("k", 0.1); f != 10.1 || err != nil {
		fail("IncrByFloat = %v, %v", f, err)
	}
	if v, err := c.Get("k"); v != "10.1" || err != nil {
		fail("Get = %q, %v", v, err)
	}
''',C)
bug('c05-msetnx-partial','C05',[('cache/cachestring.go','''	for k, v := range kv {
		if _, loaded := c.dataDict.LoadOrStore(k, tryInt64(v)); !loaded {
			n++
		}
	}

	return n
''','''	for k, v := range kv {
		if v == "" {
			continue
		}
		if _, loaded := c.dataDict.LoadOrStore(k, tryInt64(v)); !loaded {
			n++
		}
	}

	return n
''')],'a pair with an empty value','MSetNX skips the pairs with an empty value',
'''	c := cache.New()
	if n := c.MSetNX(map[string]string{"a": "1", "b": ""}); n != 2 {
		fail("MSetNX = %d", n)
	}
	if n := c.SetNX2("b"); n != 0 {
		fail("b is absent")
	}
'''.replace('n := c.SetNX2("b"); n != 0','n, _ := c.SetNX("b", "x"); n != 0'),C)
bug('c06-stale-deadline','C06',[('cache/cacheutil.go','''		c.dataDict.Delete(key)
		c.expiresDict.Delete(key)
	}

	return expired''','''		c.dataDict.Delete(key)
	}

	return expired''')],'a key that expired is created again with SetNX, Append, a counter or a hash command','The old deadline applies to the new value, which disappears at once',
'''	c := cache.New()
	c.PSetEX("k", "v", 1)
	time.Sleep(20 * time.Millisecond)
	if n, err := c.SetNX("k", "w"); n != 1 || err != nil {
		fail("SetNX = %d, %v", n, err)
	}
	if v, err := c.Get("k"); v != "w" || err != nil {
		fail("Get = %q, %v", v, err)
	}
''',C)
bug('c06-flush-deadlines','C06',[('cache/cachedb.go','''	c.dataDict = &SyncMapDatabase{}
	c.expiresDict = &SyncMapDatabase{}
}''','''	c.dataDict = &SyncMapDatabase{}
}''')],'a key with a lifetime, then Flush, then a command that creates the key without touching its lifetime','The lifetime from before the Flush ends the new value',
'''	c := cache.New()
	c.PSetEX("k", "v", 50)
	c.Flush()
	c.SetNX("k", "w")
	time.Sleep(100 * time.Millisecond)
	if v, err := c.Get("k"); v != "w" || err != nil {
		fail("Get = %q, %v", v, err)
	}
''',C)
bug('c07-early-sweep','C07',[('cache/cachecron.go','''			if expire.Before(time.Now()){''','''			// nobody would see it expire before the next run
			if expire.Before(time.Now().Add(duration)){''')],'a key whose lifetime ends between two runs of the sweep','The sweep removes keys up to one period before their deadline',
'''	c := cache.New()
	c.Cron()
	time.Sleep(1500 * time.Millisecond)
	c.PSetEX("k", "v", 2200)
	time.Sleep(1200 * time.Millisecond)
	if v, err := c.Get("k"); v != "v" || err != nil {
		fail("Get = %q, %v", v, err)
	}
''',C)
bug('c07-unlocked-delete','C07',[('cache/cachecron.go','''		c.lock.Lock()
		c.expiresDict.Range''','''		var keys []interface{}
		c.lock.RLock()
		c.expiresDict.Range'''),('cache/cachecron.go','''				c.expiresDict.Delete(key)
				c.dataDict.Delete(key)
			}

			return true
		})

		c.lock.Unlock()
''','''				keys = append(keys, key)
			}

			return true
		})
		c.lock.RUnlock()

		for _, key := range keys {
			c.lock.Lock()
			c.expiresDict.Delete(key)
			c.dataDict.Delete(key)
			c.lock.Unlock()
		}
''')],'a client overwriting an expired key between the collection of the expired keys and their removal','The sweep removes a value that was just written',
'''	c := cache.New()
	const n = 300000
	keys := make([]string, n)
	for i := range keys {
		keys[i] = fmt.Sprint("k", i)
		c.PSetEX(keys[i], "v", 1)
	}
	c.Cron()
	// overwrite the keys around the time of the sweep
	end := time.Now().Add(8 * time.Second)
	for time.Now().Before(end) {
		for i := 0; i < n; i += 97 {
			c.Set(keys[i], "w")
		}
		for i := 0; i < n; i += 97 {
			if v, err := c.Get(keys[i]); v != "w" {
				fail("Get %s = %q, %v", keys[i], v, err)
			}
		}
		for i := 0; i < n; i++ {
			c.PSetEX(keys[i], "v", 1)
		}
	}
''',C)
bug('c08-mget-stops','C08',[('cache/cachestring.go','''			if str, err := fmtString(v);err != nil{
				values[id] =  err
			}else{''','''			if str, err := fmtString(v);err != nil{
				values[id] =  err
				return values
			}else{''')],'MGet of a hash key followed by other keys','The positions after a key of the wrong kind are left nil',
'''	c := cache.New()
	c.HSet("h", "f", "v")
	c.Set("k", "v")
	vals := c.MGet("h", "k")
	if len(vals) != 2 || vals[1] != "v" {
		fail("MGet = %v", vals)
	}
''',C)
bug('c09-getset-hash','C09',[('cache/cachestring.go','''	old, ok := c.get(key)

	var str string''','''	old, ok := c.dataDict.LoadOrStore(key, tryInt64(value))
	if c.expired(key) {
		ok = false
	}

	var str string'''),('cache/cachestring.go','''	c.dataDict.Store(key, tryInt64(value))
	c.expiresDict.Delete(key)

	return str, err''','''	if _, hash := old.(*hashEntry); !hash || len(value) > 0 {
		c.dataDict.Store(key, tryInt64(value))
	}
	c.expiresDict.Delete(key)

	return str, err''')],'a','b','''	_ = cache.New()''',C) if 0 else None
bug('c09-hset-empty-string','C09',[('cache/cachehash.go','''	if he, ok := entry.(*hashEntry); ok {
		return he, nil
	} else {
		return nil, ErrWrongType
	}''','''	if he, ok := entry.(*hashEntry); ok {
		return he, nil
	} else if entry == "" {
		return nil, nil
	} else {
		return nil, ErrWrongType
	}''')],'a hash command on a key holding the empty string','Hash commands take the empty string for an absent key and overwrite it',
'''	c := cache.New()
	c.Set("k", "")
	if _, err := c.HSet("k", "f", "v"); err == nil {
		fail("HSet on a string gives no error")
	}
	if v, err := c.Get("k"); v != "" || err != nil {
		fail("Get = %q, %v", v, err)
	}
''',C)
bug('c10-hdel-twice','C10',[('cache/cachehash.go','''		if _, ok := he.get(field); ok {
			n++
			he.Delete(field)
		}
	}

	if n != 0{
		he.length -= n
	}''','''		if _, ok := he.get(field); ok {
			n++
		}
	}

	if n != 0{
		for _, field := range fields {
			he.Delete(field)
		}
		he.length -= n
	}''')],'HDel naming the same field twice','The field is counted twice in the result and in HLen',
'''	c := cache.New()
	c.HSet("k", "f", "v")
	c.HSet("k", "g", "v")
	if n, err := c.HDel("k", "f", "f"); n != 1 || err != nil {
		fail("HDel = %d, %v", n, err)
	}
	if n, _ := c.HLen("k"); n != 1 {
		fail("HLen = %d", n)
	}
''',C)
bug('c10-hmset-count','C10',[('cache/cachehash.go','''	for f, v := range fv{
		n += he.set(f, v)
	}
''','''	if he.length == 0 {
		// all fields are new
		n = len(fv)
		for f, v := range fv{
			he.Store(f, tryInt64(v))
		}
		he.length = n
		return n, err
	}

	for f, v := range fv{
		if n += he.set(f, v); n == len(fv) {
			break
		}
	}
''')],'HMSet on a','b','''	_ = cache.New()''',C) if 0 else None
bug('c11-float-digits','C11',[('cache/cachehash.go','''		he.set(field, strconv.FormatFloat(increment, 'f', -1, 64))
		return increment, nil''','''		he.set(field, strconv.FormatFloat(increment, 'f', 17, 64))
		return increment, nil''')],'the first float increment of a field is smaller than 1e-17, or any increment of which the text is compared','A tiny first increment is stored as zero and later increments lose it',
'''	c := cache.New()
	c.HIncrByFloat("k", "f", 1e-20)
	if f, err := c.HIncrByFloat("k", "f", 1e-20); f != 2e-20 || err != nil {
		fail("HIncrByFloat = %v, %v", f, err)
	}
''',C)
bug('c11-int-window','C11',[('cache/cachehash.go','''		he.set(field, strconv.Itoa(increment))
		return increment, nil''','''		he.set(field, strconv.FormatUint(uint64(increment), 10))
		return increment, nil''')],'a negative first increment','A counter that starts below zero is stored as a huge number',
'''	c := cache.New()
	c.HIncrBy("k", "f", -5)
	if n, err := c.HIncrBy("k", "f", 2); n != -3 || err != nil {
		fail("HIncrBy = %d, %v", n, err)
	}
''',C)
bug('c12-append-window','C12',[('cache/cachestring.go','''	old, ok := c.dataDict.Load(key)
	if !ok || c.expired(key) {
		c.dataDict.Store(key, tryInt64(value))
		return len(value), nil
	}

	if old, err''','''	old, ok := c.dataDict.Load(key)
	if !ok || c.expired(key) {
		c.lock.Unlock()
		v := tryInt64(value)
		c.lock.Lock()
		c.dataDict.Store(key, v)
		return len(value), nil
	}

	if old, err''')],'two clients appending to an absent key at the same time','One of the two appended texts is lost',
'''	for i := 0; i < 300000; i++ {
		c := cache.New()
		var wg sync.WaitGroup
		start := make(chan struct{})
		for j := 0; j < 4; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				c.Append("k", "xxxxxxxxxxxxxxxx")
			}()
		}
		close(start)
		wg.Wait()
		if n, _ := c.StrLen("k"); n != 64 {
			fail("StrLen = %d after 4 appends of 16 in round %d", n, i)
		}
	}
''',C+['sync'])
bug('c12-decr-two-steps','C12',[('cache/cachestring.go','''func (c *Cache) Decr(key string) (int, error) {
	c.lock.Lock()
	defer c.lock.Unlock()

	return c.incrBy(key, -1)
}''','''func (c *Cache) Decr(key string) (int, error) {
	c.lock.RLock()
	defer c.lock.RUnlock()

	return c.incrBy(key, -1)
}''')],'two clients decrementing the same key at the same time','Decrements are lost',
'''	c := cache.New()
	c.Set("k", "0")
	var wg sync.WaitGroup
	for j := 0; j < 8; j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200000; i++ {
				c.Decr("k")
			}
		}()
	}
	wg.Wait()
	if v, _ := c.Get("k"); v != "-1600000" {
		fail("Get = %s after 1600000 decrements", v)
	}
''',C+['sync'])
bug('c13-hash-counter','C13',[('cache/cachehash.go','''	c.lock.Lock()
	defer c.lock.Unlock()

	he, err := c.getHashEntry(key)
	if err != nil {
		return 0, err
	}

	if he == nil {
		return 0, nil
	}

	for _, field''','''	c.lock.RLock()
	he, err := c.getHashEntry(key)
	c.lock.RUnlock()
	if err != nil {
		return 0, err
	}

	if he == nil {
		return 0, nil
	}

	c.lock.Lock()
	defer c.lock.Unlock()

	for _, field''')],'a client deleting the key and creating the hash again between the lookup and the removal of HDel','HDel removes the field from a hash that is no longer stored',
'''	for i := 0; i < 2000000; i++ {
		c := cache.New()
		c.HSet("k", "f", "v")
		c.HSet("k", "g", "v")
		var wg sync.WaitGroup
		start := make(chan struct{})
		var n int
		wg.Add(2)
		go func() {
			defer wg.Done()
			<-start
			n, _ = c.HDel("k", "f")
		}()
		go func() {
			defer wg.Done()
			<-start
			c.Del("k")
			c.HSet("k", "f", "w")
		}()
		close(start)
		wg.Wait()
		m, _ := c.HExists("k", "f")
		// in every order a field is removed while f is absent afterwards, unless HDel came first
		if v, _ := c.HGet("k", "f"); n == 1 && m == 1 && v == "w" {
			continue // HDel first
		} else if n == 1 && m == 0 || n == 0 && m == 1 {
			continue
		} else {
			fail("HDel = %d, HExists = %d", n, m)
		}
	}
''',C+['sync']) if 0 else None
bug('c13-hdel-count','C13',[('cache/cachehash.go','''	c.lock.Lock()
	defer c.lock.Unlock()

	he, err := c.getHashEntry(key)
	if err != nil {
		return 0, err
	}

	if he == nil {
		return 0, nil
	}

	for _, field := range fields {
		if _, ok := he.get(field); ok {
			n++
			he.Delete(field)
		}
	}
''','''	c.lock.Lock()

	he, err := c.getHashEntry(key)
	if err != nil || he == nil {
		c.lock.Unlock()
		return 0, err
	}

	for _, field := range fields {
		if _, ok := he.get(field); ok {
			n++
			he.Delete(field)
		}
	}
	c.lock.Unlock()
''')],'HDel and HSet of two clients on the same hash at the same time','Updates of the field count are lost',
'''	c := cache.New()
	var wg sync.WaitGroup
	for j := 0; j < 8; j++ {
		wg.Add(1)
		go func(f string) {
			defer wg.Done()
			for i := 0; i < 200000; i++ {
				c.HSet("k", f, "v")
				c.HDel("k", f)
			}
		}(fmt.Sprint("f", j))
	}
	wg.Wait()
	if n, _ := c.HLen("k"); n != 0 {
		fail("HLen = %d for an empty hash", n)
	}
''',C+['sync'])
bug('c14-lock-kept','C14',[('cache/cachestring.go','''func (c *Cache) SetRange(key string, pos int, replace string) (int, error) {
	c.lock.Lock()
	defer c.lock.Unlock()
''','''func (c *Cache) SetRange(key string, pos int, replace string) (int, error) {
	c.lock.Lock()
'''),('cache/cachestring.go','''	if pos < 0 {
		return 0, ErrOffsetOutOfRange
	}

	if pos > MaxStringLen-len(replace) {
		return 0, ErrTooLong
	}
''','''	if pos < 0 {
		c.lock.Unlock()
		return 0, ErrOffsetOutOfRange
	}

	if pos > MaxStringLen-len(replace) {
		c.lock.Unlock()
		return 0, ErrTooLong
	}
'''),('cache/cachestring.go','''		replace = string(str) + replace
		c.dataDict.Store(key, tryInt64(replace))
		return''','''		replace = string(str) + replace
		c.dataDict.Store(key, tryInt64(replace))
		c.lock.Unlock()
		return'''),('cache/cachestring.go','''	c.dataDict.Store(key, tryInt64(string(str)))
	return len(str), nil
}

func (c *Cache) GetRange''','''	c.dataDict.Store(key, tryInt64(string(str)))
	c.lock.Unlock()
	return len(str), nil
}

func (c *Cache) GetRange''')],'SetRange on a hash key','The lock is kept on the error path and the next command blocks forever',
'''	c := cache.New()
	c.HSet("h", "f", "v")
	c.SetRange("h", 0, "x")
	done := make(chan struct{})
	go func() {
		c.Set("k", "v")
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		fail("Set blocks")
	}
''',C)
if __name__=='__main__':
    import sys
    main(sys.argv[1:])

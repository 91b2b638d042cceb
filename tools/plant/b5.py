from maker import *
import b2
from b2 import R, TOP
BUGS.clear()
def rb(id,prop,edits,needs,what,body,imports=()): bug(id,prop,edits,needs,what,body,R+list(imports),TOP)
bug('c02-append-scratch','C02',[('cache/cachestring.go','''		value = old + value
''','''		// most values are short, put them together without a buffer on the heap
		var buf [1024]byte
		n := copy(buf[:], old)
		n += copy(buf[n:], value)
		if len(value) > len(buf) {
			value = old + value
		} else {
			value = string(buf[:n])
		}
''')],'a short text appended to a value that is close to 1024 bytes long or longer','What is beyond 1024 bytes is lost',
'''	c := cache.New()
	old := strings.Repeat("x", 1023)
	c.Set("k", old)
	if n, err := c.Append("k", "yz"); n != 1025 || err != nil {
		fail("Append = %d, %v", n, err)
	}
	if v, err := c.Get("k"); v != old+"yz" || err != nil {
		fail("Get = %d bytes, %v", len(v), err)
	}
''',['cache','strings'])
bug('c10-getall-page','C10',[('cache/cachehash.go','''				kv[field] = v
			}
		}

		return true
	})

	return kv, nil
''','''				kv[field] = v
			}
		}

		return len(kv) < 256 || int64(len(kv)) < int64(he.length)&0xff00
	})

	return kv, nil
''')],'a hash with more than 256 fields','HGetAll leaves fields out',
'''	c := cache.New()
	for i := 0; i < 300; i++ {
		c.HSet("h", fmt.Sprint("f", i), "v")
	}
	if kv, err := c.HGetAll("h"); len(kv) != 300 || err != nil {
		fail("HGetAll = %d pairs, %v", len(kv), err)
	}
''',['cache'])
rb('c18-mget-batch','C18',[('redis/redis.go','''	rc := InterfaceArrayCommand{
		BaseCommand: NewBaseCommand(append([]string{"MGet"}, keys...)...),
	}
	redis.process(&rc)

	return rc.Val, rc.Err
''','''	rc := InterfaceArrayCommand{
		BaseCommand: NewBaseCommand(append([]string{"MGet"}, keys...)...),
	}
	// keep requests short
	if len(keys) > 128 {
		rc.Args = rc.Args[:128]
	}
	redis.process(&rc)
	if len(keys) <= 128 || rc.Err != nil {
		return rc.Val, rc.Err
	}

	rest, err := redis.MGet(keys[127:]...)
	return append(rc.Val, rest...), err
''')],'MGet of more than 128 keys','Several requests are sent instead of one, the answers are not of one moment',
'''	got := make(chan int, 10)
	addr := serve(func(c net.Conn) {
		r := redis.NewConn(c)
		for {
			s := request(r)
			if s == "" {
				return
			}
			n := len(strings.Fields(s)) - 1
			got <- n
			reply(c, fmt.Sprintf("*%d\\r\\n", n)+strings.Repeat("$-1\\r\\n", n))
		}
	})
	var keys []string
	for i := 0; i < 150; i++ {
		keys = append(keys, fmt.Sprint("k", i))
	}
	res, err := redis.NewClient(redis.Option{Addr: addr}).MGet(keys...)
	if n := <-got; n != 150 || len(res) != 150 {
		fail("sent %d keys, %d results, %v", n, len(res), err)
	}
''')
rb('c15-array-shared','C15',[('redis/conn.go','''				messages = append(messages, message)
			}
		}
''','''				// large arrays are put together in blocks
				if i >= 1024 && i%1024 == 0 && len(messages) == cap(messages) {
					block := make(ArrayMessage, i, 2*i)
					copy(block, messages[:i-1])
					messages = block
				}
				messages = append(messages, message)
			}
		}
''')],'an array of more than a thousand elements whose storage is full at a block','An element is lost',
'''	const n = 100000
	s := fmt.Sprintf("*%d\\r\\n", n)
	for i := 0; i < n; i++ {
		s += ":7\\r\\n"
		if len(s) > 100 {
			parts = append(parts, s)
			s = ""
		}
	}
	m, err := feed(strings.Join(append(parts, s), "")).Recv()
	a, _ := m.(redis.ArrayMessage)
	if err != nil || len(a) != n {
		fail("%d elements, %v", len(a), err)
	}
	for i := range a {
		if a[i] == nil {
			fail("element %d is lost", i)
		}
	}
'''.replace('	const n','	var parts []string\n	const n'))
if __name__=='__main__':
    import sys
    main(sys.argv[1:])

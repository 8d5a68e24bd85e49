M='caches/provider_memcache.go'; R='caches/provider_redis.go'; G='caches/provider_mgo.go'; C='caches/caches.go'
def after(anchor, old, new):
    s=open('/repo/'+R).read(); i=s.index(anchor); j=s.index(old,i)
    return s[i:j]+old, s[i:j]+new
def ed(f, anchor, old, new):
    s=open('/repo/'+f).read(); i=s.index(anchor); j=s.index(old,i)
    return (f, s[i:j]+old, s[i:j]+new)
PRE="	key = p.KeyPrefix + key\n"
HE="	err = p.handleError(err)\n"
V=[
('bug','C17','prefix dropped mc delete',[ed(M,') Delete(',PRE,'')]),
('bug','C17','prefix dropped redis touch',[ed(R,') Touch(',PRE,'')]),
('bug','C17','prefix twice',[ed(M,'func (p *mcProvide) Has(','	_, err := p.Client.Get(key)','	_, err := p.Client.Get(p.KeyPrefix + key)')]),
('bug','C17','prefix behind',[ed(R,') Incr(',PRE,'	key = key + p.KeyPrefix\n')]),
('bug','C17','decr increments',[ed(M,') Decr(','p.Client.Decrement','p.Client.Increment')]),
('bug','C17','redis decr sign',[ed(R,') Decr(','"DECRBY"','"INCRBY"')]),
('bug','C17','mgo decr sign',[(G,"cnt = 0 - params[0]","cnt = params[0]")]),
('bug','C17','mgo decr default',[(G,"	cnt := -1","	cnt := 1")]),
('bug','C17','redis set del',[ed(R,') Delete(','"DEL", key','"DEL", key, key+":meta"')]),
('bug','C17','put missing on touch',[ed(R,') Touch(','	defer p.Client.Put(conn)\n','')]),
('bug','C17','put only on success',[ed(R,') Delete(','	defer p.Client.Put(conn)\n',''),(R,"	if deleted == 0 {\n		err = ErrMissedKey\n	}\n","	if deleted == 0 {\n		err = ErrMissedKey\n	}\n	p.Client.Put(conn)\n")]),
('bug','C17','put before use',[ed(R,') Clean(','	defer p.Client.Put(conn)\n','	p.Client.Put(conn)\n')]),
('bug','C17','put twice',[ed(R,') Clean(','	err = resp.Err\n','	err = resp.Err\n	if err != nil {\n		p.Client.Put(conn)\n	}\n')]),
('bug','C17','put before err check',[ed(R,') Has(','	if err != nil {\n		return\n	}\n	defer p.Client.Put(conn)\n','	defer p.Client.Put(conn)\n	if err != nil {\n		return\n	}\n')]),
('bug','C17','value key',[(M,"Value:      []byte(utils.ToStr(val))","Value:      []byte(utils.ToStr(key))")]),
('bug','C17','mgo value string of key field',[(G,"p.config.ValueField:     val","p.config.ValueField:     key")]),
('bug','C17','mgo get wrong field',[(G,"value, ok = values[p.config.ValueField]","value, ok = values[p.config.KeyField]")]),
('bug','C17','clean by key',[ed(R,') Clean(','"FLUSHDB"','"FLUSHALL"')]),
('bug','C17','mgo remove all of key prefix',[ed(G,') Clean(','c.RemoveAll(nil)','c.RemoveAll(bson.M{p.config.KeyField: bson.M{"$ne": ""}})')]),
('bug','C17','incr ignores amount over one',[ed(M,') Incr(','uint64(cnt)','uint64(1+0*cnt)')]),
('bug','C17','decr amount when two',[ed(R,') Decr(','	if len(params) > 0 {','	if len(params) > 1 {')]),
('bug','C17','incr skips zero',[ed(G,') Incr(','	if len(params) > 0 {','	if len(params) > 0 && params[0] > 0 {')]),
('bug','C17','touch via set',[ed(R,') Touch(','"EXPIRE", key, timeout.Seconds()','"SET", key, "", "EX", timeout.Seconds()')]),
('bug','C17','mgo update by value field',[ed(G,') Touch(','			p.config.KeyField: key,','			p.config.ValueField: key,')]),
('bug','C17','two deletes',[ed(M,') Delete(','	err = p.Client.Delete(key)\n','	p.Client.Delete(key + "_lock")\n	err = p.Client.Delete(key)\n')]),
('bug','C18','mc get miss unmapped',[ed(M,') Get(','		err = p.handleError(err)\n','')]),
('bug','C18','redis incr unmapped is allowed but lost',[ed(R,') Incr(','	err = resp.Err\n	err = p.handleError(err)\n','	_ = resp\n')]),
('bug','C18','mgo touch unmapped',[ed(G,') Touch(',HE,'')]),
('bug','C18','mc every error missed',[(M,"	if err == memcache.ErrCacheMiss {\n		return ErrMissedKey\n	}\n	return err\n}","	if err != nil {\n		return ErrMissedKey\n	}\n	return err\n}")]),
('bug','C18','mc wrong sentinel',[(M,"	if err == memcache.ErrCacheMiss {\n		return ErrMissedKey","	if err == memcache.ErrNotStored {\n		return ErrMissedKey")]),
('bug','C18','redis touched not looked at',[(R,"	if touched == 0 {\n		err = ErrMissedKey\n	}\n","	_ = touched\n")]),
('bug','C18','redis deleted not looked at',[(R,"	if deleted == 0 {\n		err = ErrMissedKey\n	}\n","	_ = deleted\n")]),
('bug','C18','redis touched inverted',[(R,"	if touched == 0 {","	if touched > 1 {")]),
('bug','C18','redis conn failure swallowed in has',[ed(R,') Has(','	if err != nil {\n		return\n	}\n','	if err != nil {\n		return false, nil\n	}\n')]),
('bug','C18','redis get error value',[(R,"	if err != nil {\n		err = p.handleError(err)\n		return\n	}\n	value = utils.StrTo(v)","	value = utils.StrTo(v)\n	if err != nil {\n		err = p.handleError(err)\n		return\n	}\n	_ = v")]),
('bug','C18','has error kept',[(M,"	if err == memcache.ErrCacheMiss {\n		err = nil\n	}\n","")]),
('bug','C18','has swallows all',[(M,"	if err == memcache.ErrCacheMiss {\n		err = nil\n	}\n	return exists, err","	return exists, nil")]),
('bug','C18','has inverted',[(M,"	exists := err == nil","	exists := err != memcache.ErrCacheMiss")]),
('bug','C18','redis has count',[(R,"	exists = e == 1","	exists = e >= 0")]),
('bug','C18','mgo has without expiry',[ed(G,') Has(','	_, ok := p.getValue(values)','	_, ok := values[p.config.ValueField]')]),
('bug','C18','mgo expired handed back',[(G,"		if time.Now().Before(expiredAt) {","		if time.Now().Before(expiredAt.Add(time.Minute)) {")]),
('bug','C18','mgo expired inverted',[(G,"time.Now().Before(expiredAt)","!time.Now().Before(expiredAt)")]),
('bug','C18','mgo missing time counts',[(G,"	if exists {\n		// not","	if exists || expiredAt.IsZero() {\n		// not"),(G,"		if time.Now().Before(expiredAt) {","		if !exists || time.Now().Before(expiredAt) {")]),
('bug','C18','mgo get not ok',[(G,"	if !ok {\n		err = ErrMissedKey\n		return\n	}\n","	if !ok {\n		return\n	}\n")]),
('bug','C18','mgo set error dropped',[ed(G,') Set(','		return er\n','		if er != nil && !mgo.IsDup(er) {\n			return er\n		}\n		return nil\n')]),
('bug','C18','mgo closure error dropped',[ed(G,') Delete(','		return er\n','		_ = er\n		return nil\n')]),
('bug','C18','redis set err dropped',[ed(R,') Set(','	err = resp.Err\n','	_ = resp\n')]),
('bug','C18','mc set err dropped',[ed(M,') Set(','	err = p.Client.Set(','	p.Client.Set(')]),
('bug','C18','redis set missing mapped',[ed(R,') Set(','	err = resp.Err\n','	if resp.Err != nil {\n		err = ErrMissedKey\n	}\n')]),
('bug','C19','seconds as millis',[(C,"time.Duration(params[0]) * time.Second","time.Duration(params[0]) * time.Millisecond")]),
('bug','C19','one second boundary',[(C,"		case params[0] > 0:","		case params[0] > 1:")]),
('bug','C19','default none',[(C,"	if timeout == 0 {\n		timeout = DefaultTimeout\n	}\n","")]),
('bug','C19','default hour for zero',[(C,"		timeout = DefaultTimeout","		timeout = time.Hour")]),
('bug','C19','negative default',[(C,"	if timeout < 0 {\n		timeout = 0\n	}","	if timeout < 0 {\n		timeout = DefaultTimeout\n	}")]),
('bug','C19','negative kept',[(C,"	if timeout < 0 {\n		timeout = 0\n	}","")]),
('bug','C19','mgo negative now',[ed(G,') Set(','getTimeoutDurEx(params...)','getTimeoutDur(params...)')]),
('bug','C19','redis touch negative deletes',[ed(R,') Touch(','getTimeoutDurEx(','getTimeoutDur(')]),
('bug','C19','redis set minutes',[(R,'"EX", timeout.Seconds()','"EX", timeout.Minutes()')]),
('bug','C19','redis set px',[(R,'"EX", timeout.Seconds()','"PX", timeout.Seconds()')]),
('bug','C19','redis set without ex when short',[(R,"	if timeout > 0 {\n		args","	if timeout > 1000000000 {\n		args")]),
('bug','C19','redis touch without params',[ed(R,') Touch(','getTimeoutDurEx(params...)','getTimeoutDurEx()')]),
('bug','C19','mc never absolute',[(M,"	if timeout > 30*24*time.Hour {\n		return int32(time.Now().Add(timeout).Unix())\n	}\n","")]),
('bug','C19','mc 31 days',[(M,"timeout > 30*24*time.Hour","timeout > 31*24*time.Hour")]),
('bug','C19','mc touch raw',[(M,"p.Client.Touch(key, p.expiration(timeout))","p.Client.Touch(key, int32(timeout.Seconds()))")]),
('bug','C19','mc absolute of negative',[(M,"timeout > 30*24*time.Hour","timeout == 0 || timeout > 30*24*time.Hour")]),
('bug','C19','mgo ttl from zero time',[ed(G,') Touch(','time.Now().Add(timeout)','time.Unix(0, 0).Add(timeout)')]),
('bug','C19','gc removes fresh',[(G,'"$lte": time.Now()','"$gte": time.Now()')]),
('bug','C19','gc ahead',[(G,'"$lte": time.Now()','"$lte": time.Now().Add(time.Minute)')]),
('bug','C19','gc when auto',[(G,"	if p.config.AutoExpire {\n		return","	if !p.config.AutoExpire {\n		return")]),
('bug','C19','gc error dropped',[ed(G,') GC(','		return er\n','		_ = er\n		return nil\n')]),
('bug','C19','index always expires',[(G,"		if config.AutoExpire {\n","		if true {\n")]),
('bug','C19','index not unique',[(G,"Name: config.KeyField, Unique: true}","Name: config.KeyField}")]),
('bug','C19','index error lost',[(G,"		if err = c.EnsureIndex(expireIndex); err != nil {\n			err = fmt.Errorf(\"NewmgoProvide, EnsureIndex: %v\", err)\n			return\n		}\n","		c.EnsureIndex(expireIndex)\n")]),
('ref','C17','key helper mc',[ed(M,') Get(',PRE,'	key = p.full(key)\n'),ed(M,') Delete(',PRE,'	key = p.full(key)\n'),(M,"func (p *mcProvide) handleError","func (p *mcProvide) full(key string) string { return p.KeyPrefix + key }\n\nfunc (p *mcProvide) handleError")]),
('ref','C17','redis do helper',[(R,"""	conn, err := p.Client.Get()
	if err != nil {
		return
	}
	defer p.Client.Put(conn)

	resp := conn.Cmd("DECRBY", key, cnt)
	err = resp.Err
	err = p.handleError(err)
	return
""","""	return p.do(func(conn *redis.Client) error {
		return p.handleError(conn.Cmd("DECRBY", key, cnt).Err)
	})
"""),(R,"func (p *redisProvide) handleError","""func (p *redisProvide) do(f func(conn *redis.Client) error) error {
	conn, err := p.Client.Get()
	if err != nil {
		return err
	}
	defer p.Client.Put(conn)
	return f(conn)
}

func (p *redisProvide) handleError""")]),
('ref','C17','redis pool cmd',[(R,"""	conn, err := p.Client.Get()
	if err != nil {
		return
	}
	defer p.Client.Put(conn)

	resp := conn.Cmd("FLUSHDB")
""","""	resp := p.Client.Cmd("FLUSHDB")
""")]),
('ref','C17','redis setex',[(R,"""	args := []interface{}{key, utils.ToStr(val)}
	if timeout > 0 {
		args = append(args, "EX", timeout.Seconds())
	}
	resp := conn.Cmd("SET", args...)
	err = resp.Err
	return""","""	if timeout > 0 {
		return conn.Cmd("SETEX", key, int64(timeout/time.Second), utils.ToStr(val)).Err
	}
	return conn.Cmd("SET", key, utils.ToStr(val)).Err"""),(R,"import (\n",'import (\n	"time"\n')]),
('ref','C17','redis explicit put',[(R,"""	defer p.Client.Put(conn)

	resp := conn.Cmd("FLUSHDB")
""","""	resp := conn.Cmd("FLUSHDB")
	p.Client.Put(conn)
""")]),
('ref','C17','switch errors',[(M,"	if err == memcache.ErrCacheMiss {\n		return ErrMissedKey\n	}\n	return err\n}","	switch err {\n	case nil:\n		return nil\n	case memcache.ErrCacheMiss:\n		return ErrMissedKey\n	default:\n		return err\n	}\n}")]),
('ref','C17','errors.Is',[(G,"	if err == mgo.ErrNotFound {\n		return ErrMissedKey","	if errors.Is(err, mgo.ErrNotFound) {\n		return ErrMissedKey"),(G,'	"fmt"\n','	"errors"\n	"fmt"\n')]),
('ref','C17','has early',[(M,"""	exists := err == nil
	if err == memcache.ErrCacheMiss {
		err = nil
	}
	return exists, err""","""	switch {
	case err == nil:
		return true, nil
	case err == memcache.ErrCacheMiss:
		return false, nil
	}
	return false, err""")]),
('ref','C17','dur simple',[(C,"""	var timeout time.Duration
	if len(params) > 0 {
		switch {
		case params[0] > 0:
			timeout = time.Duration(params[0]) * time.Second
			return timeout
		default:
			timeout = time.Duration(params[0])
		}
	}

	if timeout == 0 {
		timeout = DefaultTimeout
	}
	if timeout < 0 {
		timeout = 0
	}
	return timeout""","""	if len(params) == 0 || params[0] == 0 {
		return DefaultTimeout
	}
	if params[0] < 0 {
		return 0
	}
	return time.Duration(params[0]) * time.Second""")]),
('ref','C17','dur times second',[(C,"			timeout = time.Duration(params[0])\n","			timeout = time.Duration(params[0]) * time.Second\n")]),
('ref','C17','mc always abs over 1 day',[(M,"timeout > 30*24*time.Hour","timeout > 24*time.Hour")]),
('ref','C17','mc secs const',[(M,"	if timeout > 30*24*time.Hour {\n		return int32(time.Now().Add(timeout).Unix())\n	}\n	return int32(timeout.Seconds())","	const month = 30 * 24 * 60 * 60\n	secs := int64(timeout / time.Second)\n	if secs <= month {\n		return int32(secs)\n	}\n	return int32(time.Now().Add(timeout).Unix())")]),
('ref','C17','mgo after',[(G,"		if time.Now().Before(expiredAt) {","		if expiredAt.After(time.Now()) {")]),
('ref','C17','mgo not after',[(G,"""	if values == nil {
		return
	}

	// get expired time
	expiredAt, exists := values[p.config.ExpiredAtField].(time.Time)
	if exists {
		// not expired yet
		if time.Now().Before(expiredAt) {

			// get cached value
			value, ok = values[p.config.ValueField]
		}
	}
	return""","""	expiredAt, exists := values[p.config.ExpiredAtField].(time.Time)
	if !exists || !time.Now().Before(expiredAt) {
		return nil, false
	}
	value, ok = values[p.config.ValueField]
	return""")]),
('ref','C17','mgo selector helper',[ed(G,') Delete(','		er := c.Remove(bson.M{\n			p.config.KeyField: key,\n		})','		er := c.Remove(p.sel(key))'),(G,"func (p *mgoProvide) handleError","func (p *mgoProvide) sel(key string) bson.M {\n	return bson.M{p.config.KeyField: key}\n}\n\nfunc (p *mgoProvide) handleError")]),
('ref','C17','mgo lt',[(G,'"$lte": time.Now()','"$lt": time.Now()')]),
('ref','C17','mgo gc inverted',[(G,"	if p.config.AutoExpire {\n		return\n	}\n	err = p.connect(func(c *mgo.Collection) error {\n		_, er := c.RemoveAll(bson.M{\n			p.config.ExpiredAtField: bson.M{\n				\"$lte\": time.Now(),\n			},\n		})\n		return er\n	})\n	return","	if !p.config.AutoExpire {\n		err = p.connect(func(c *mgo.Collection) error {\n			_, er := c.RemoveAll(bson.M{\n				p.config.ExpiredAtField: bson.M{\n					\"$lte\": time.Now(),\n				},\n			})\n			return er\n		})\n	}\n	return")]),
('ref','C17','incr helper count',[ed(M,') Incr(','	cnt := 1\n	if len(params) > 0 {\n		cnt = params[0]\n	}\n','	cnt := count(params)\n'),(M,"func (p *mcProvide) handleError","func count(params []int) int {\n	if len(params) == 0 {\n		return 1\n	}\n	return params[0]\n}\n\nfunc (p *mcProvide) handleError")]),
('ref','C17','mgo decr negates late',[(G,"	cnt := -1\n	if len(params) > 0 {\n		cnt = 0 - params[0]\n	}","	cnt := 1\n	if len(params) > 0 {\n		cnt = params[0]\n	}\n	cnt = -cnt")]),
('ref','C17','redis count switch',[(R,"	if deleted == 0 {\n		err = ErrMissedKey\n	}\n","	if deleted < 1 {\n		return ErrMissedKey\n	}\n")]),
('ref','C17','redis has positive',[(R,"	exists = e == 1","	exists = err == nil && e > 0")]),
('ref','C17','index literal',[(G,"		expireIndex := mgo.Index{\n			Name: config.ExpiredAtField,\n			Key:  []string{config.ExpiredAtField},\n		}\n\n		if config.AutoExpire {\n			// 创建 mgo 自动过期的索引\n			expireIndex.ExpireAfter = time.Minute\n		}\n","		var after time.Duration\n		if config.AutoExpire {\n			after = time.Minute\n		}\n		expireIndex := mgo.Index{Name: config.ExpiredAtField, Key: []string{config.ExpiredAtField}, ExpireAfter: after}\n")]),
]

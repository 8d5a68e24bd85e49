P='sessions/provider.go'; D='sessions/store_dummy.go'; M='sessions/manager.go'; G='sessions/provider_mgo.go'
V=[
('bug','C15','delete not dirty',[(P,"	m.changed = true\n	delete(m.store.Values, key)","	delete(m.store.Values, key)")]),
('bug','C15','set dirty only when new',[(P,"	m.changed = true\n	m.store.Values[key] = value","	if _, ok := m.store.Values[key]; !ok {\n		m.changed = true\n	}\n	m.store.Values[key] = value")]),
('bug','C15','clean not dirty in dummy',[(D,"	m.changed = true\n	m.values = make","	m.values = make")]),
('bug','C15','saved flag before save',[(P,"	err := m.provider.save(m.store)\n	if err == nil {\n		m.changed = false\n	}\n	return err","	m.changed = false\n	return m.provider.save(m.store)")]),
('bug','C15','dirty never reset',[(P,"	if err == nil {\n		m.changed = false\n	}\n	return err","	return err")]),
('bug','C15','flush after destroy',[(P,"	// has destroy\n	if m.closed {\n		return nil\n	}\n","")]),
('bug','C15','save without expire',[(P,"p.cache.Set(store.Sid, value, p.config.SessionExpire)","p.cache.Set(store.Sid, value)")]),
('bug','C15','marshal error lost',[(P,"	value, err := p.conv.Marshal(store.Values)\n	if err != nil {\n		return\n	}","	value, err := p.conv.Marshal(store.Values)\n	if err != nil || len(value) == 0 {\n		return nil\n	}")]),
('bug','C15','values shared',[(P,"	values := make(map[string]interface{}, len(m.store.Values))\n	for key, value := range m.store.Values {\n		values[key] = value\n	}\n	return values","	return m.store.Values")]),
('bug','C15','values skip nil',[(P,"	for key, value := range m.store.Values {\n		values[key] = value\n	}","	for key, value := range m.store.Values {\n		if value == nil {\n			continue\n		}\n		values[key] = value\n	}")]),
('bug','C15','has by value',[(P,"	_, ok := m.store.Values[key]\n	return ok","	return m.store.Values[key] != nil")]),
('bug','C15','destroy not closed',[(P,"	m.closed = true\n	m.store.Values","	m.store.Values")]),
('bug','C15','destroy closed on success',[(P,"	m.closed = true\n	m.store.Values = make(map[string]interface{})\n	return m.provider.Destroy(m.store.Sid)","	m.store.Values = make(map[string]interface{})\n	err := m.provider.Destroy(m.store.Sid)\n	m.closed = err == nil\n	return err")]),
('bug','C15','touch default',[(P,"m.provider.cache.Touch(m.store.Sid, m.provider.config.SessionExpire)","m.provider.cache.Touch(m.store.Sid)")]),
('bug','C15','get marks',[(P,"	if v, ok := m.store.Values[key]; ok {\n		return utils.ValueTo(v)","	if v, ok := m.store.Values[key]; ok {\n		m.changed = false\n		return utils.ValueTo(v)")]),
('bug','C15','unmarshal error',[(G,"	return bson.Unmarshal(in, out)","	bson.Unmarshal(in, out)\n	return nil")]),
('bug','C15','clean then unchanged when empty flush',[(P,"	if !m.changed {\n		return nil\n	}\n\n	err :=","	if !m.changed || len(m.store.Values) == 0 {\n		return nil\n	}\n\n	err :=")]),
('ref','C15','mark helper',[(P,"	m.changed = true\n	m.store.Values[key] = value","	m.store.Values[key] = value\n	m.mark()"),(P,"	m.changed = true\n	delete(m.store.Values, key)\n","	m.mark()\n	delete(m.store.Values, key)\n"),(P,"// clear all values in session","func (m *sessData) mark() { m.changed = true }\n\n// clear all values in session")]),
('ref','C15','flush one condition',[(P,"""	// has destroy
	if m.closed {
		return nil
	}

	// no changes
	if !m.changed {
		return nil
	}

	err := m.provider.save(m.store)
	if err == nil {
		m.changed = false
	}
	return err""","""	if m.closed || !m.changed {
		return nil
	}
	if err := m.provider.save(m.store); err != nil {
		return err
	}
	m.changed = false
	return nil""")]),
('ref','C15','get short',[(P,"	if v, ok := m.store.Values[key]; ok {\n		return utils.ValueTo(v)\n	}\n	return utils.ValueTo(nil)","	v := m.store.Values[key]\n	return utils.ValueTo(v)")]),
('ref','C15','values by key',[(P,"	for key, value := range m.store.Values {\n		values[key] = value\n	}","	for key := range m.store.Values {\n		values[key] = m.store.Values[key]\n	}")]),
('ref','C15','values var',[(P,"	values := make(map[string]interface{}, len(m.store.Values))\n	for key, value := range m.store.Values {\n		values[key] = value\n	}\n	return values","	return dup(m.store.Values)"),(P,"type sessProvide struct","func dup(in map[string]interface{}) map[string]interface{} {\n	out := map[string]interface{}{}\n	for k, v := range in {\n		out[k] = v\n	}\n	return out\n}\n\ntype sessProvide struct")]),
('ref','C15','save returns',[(P,"	err = p.cache.Set(store.Sid, value, p.config.SessionExpire)\n	return\n}","	return p.cache.Set(store.Sid, value, p.config.SessionExpire)\n}")]),
('ref','C15','destroy order',[(P,"	m.closed = true\n	m.store.Values = make(map[string]interface{})\n	return m.provider.Destroy(m.store.Sid)","	sid := m.store.Sid\n	m.store.Values, m.closed = map[string]interface{}{}, true\n	return m.provider.cache.Delete(sid)")]),
# C16
('bug','C16','new sid when not found',[(M,"			sess, err = m.createSession(sid)\n","			sess, err = m.createSession(CreateSid())\n")]),
('bug','C16','create on any error',[(M,"		if err == ErrNotFoundSession {\n			sess, err = m.createSession(sid)\n","		if err != nil {\n			sess, err = m.createSession(sid)\n")]),
('bug','C16','cookie before error',[(M,"		sess, err = m.createSession(CreateSid())\n		if err != nil {\n			return\n		}\n\n		createdAt = time.Now()\n		m.WriteSessionCookie(config, r, w, sess.Sid(), createdAt)\n\n","		sid = CreateSid()\n		createdAt = time.Now()\n		m.WriteSessionCookie(config, r, w, sid, createdAt)\n		sess, err = m.createSession(sid)\n")]),
('bug','C16','cookie other time',[(M,"		createdAt = time.Now()\n		m.WriteSessionCookie(config, r, w, sess.Sid(), createdAt)\n\n	} else","		m.WriteSessionCookie(config, r, w, sess.Sid(), time.Now())\n\n	} else")]),
('bug','C16','regenerate keeps sid',[(M,"	sid := CreateSid()\n	sess, err = m.provider.Regenerate(oldsid, sid)","	sid := CreateSid()\n	sess, err = m.provider.Regenerate(oldsid, oldsid)")]),
('bug','C16','regenerate creates under old',[(M,"		sess, err = m.createSession(sid, params...)\n	}","		sess, err = m.createSession(oldsid, params...)\n	}")]),
('bug','C16','regenerate params dropped',[(M,"		sess, err = m.createSession(sid, params...)\n	}","		sess, err = m.createSession(sid)\n	}")]),
('bug','C16','delete before set',[(P,"""	err = p.cache.Set(sid, value, p.config.SessionExpire)
	if err != nil {
		return
	}

	// the old sid must not stay usable
	err = p.Destroy(old)
	if err != nil && err != caches.ErrMissedKey {
		return
	}
""","""	err = p.Destroy(old)
	if err != nil && err != caches.ErrMissedKey {
		return
	}

	err = p.cache.Set(sid, value, p.config.SessionExpire)
	if err != nil {
		return
	}
""")]),
('bug','C16','old stays',[(P,"	err = p.Destroy(old)\n	if err != nil && err != caches.ErrMissedKey {","	if old != sid {\n		err = p.cache.Touch(old, 1)\n	}\n	if err != nil && err != caches.ErrMissedKey {")]),
('bug','C16','read maps all errors',[(P,"		if err == caches.ErrMissedKey {\n			err = ErrNotFoundSession\n		}\n		return\n	}\n\n	var values","		err = ErrNotFoundSession\n		return\n	}\n\n	var values")]),
('bug','C16','decode error as not found',[(P,"	err = p.conv.Unmarshal(value.Bytes(), &values)\n	if err != nil {\n","	err = p.conv.Unmarshal(value.Bytes(), &values)\n	if err != nil {\n		err = ErrNotFoundSession\n")]),
('bug','C16','read dirty',[(P,"	sess = newSessData(p, store, false)","	sess = newSessData(p, store, values == nil)")]),
('bug','C16','create dirty two',[(P,"len(params) > 0)\n	return","len(params) > 1)\n	return")]),
('bug','C16','destroy only cookie when provider ok',[(M,"	_ = m.provider.Destroy(sid)\n","	if err := m.provider.Destroy(sid); err != nil {\n		return nil\n	}\n")]),
('bug','C16','create ignores given map',[(P,"	if len(params) > 0 {\n		store.Values = params[0]\n	}","	if len(params) > 1 {\n		store.Values = params[1]\n	}")]),
('ref','C16','start early return',[(M,"""	sid, createdAt, ok := m.ReadSidFromRequest(r, config.CookieName)
	if !ok {
		sess, err = m.createSession(CreateSid())
		if err != nil {
			return
		}

		createdAt = time.Now()
		m.WriteSessionCookie(config, r, w, sess.Sid(), createdAt)

	} else {
		sess, err = m.provider.Read(sid)
		if err == ErrNotFoundSession {
			sess, err = m.createSession(sid)
			if err != nil {
				return
			}
		}
	}
	return""","""	sid, createdAt, ok := m.ReadSidFromRequest(r, config.CookieName)
	if ok {
		if sess, err = m.provider.Read(sid); err == ErrNotFoundSession {
			return m.reopen(sid, createdAt)
		}
		return sess, createdAt, err
	}
	return m.open(config, w, r)"""),(M,"// 删除当前的session","""func (m *SessionManager) reopen(sid string, at time.Time) (SessionStore, time.Time, error) {
	s, err := m.provider.Create(sid)
	return s, at, err
}

func (m *SessionManager) open(config *CookieConfig, w http.ResponseWriter, r *http.Request, params ...map[string]interface{}) (sess SessionStore, createdAt time.Time, err error) {
	sid := CreateSid()
	sess, err = m.createSession(sid, params...)
	if err == nil {
		createdAt = time.Now()
		m.WriteSessionCookie(config, r, w, sid, createdAt)
	}
	return
}

// 删除当前的session"""),(M,"""		sess, err = m.createSession(CreateSid(), params...)
		if err != nil {
			return
		}

		createdAt = time.Now()
		m.WriteSessionCookie(config, r, w, sess.Sid(), createdAt)
		return
""","""		return m.open(config, w, r, params...)
""")]),
('ref','C16','provider helper',[(P,"""	value, err := p.cache.Get(sid)
	if err != nil {
		if err == caches.ErrMissedKey {
			err = ErrNotFoundSession
		}
		return
	}

	var values""","""	value, err := p.get(sid)
	if err != nil {
		return nil, err
	}

	var values"""),(P,"""	value, err := p.cache.Get(old)
	if err != nil {
		if err == caches.ErrMissedKey {
			err = ErrNotFoundSession
		}
		return
	}
""","""	value, err := p.get(old)
	if err != nil {
		return nil, err
	}
"""),(P,"// 为现有的session数据更换sid","""func (p *sessProvide) get(sid string) (v utils.StrTo, err error) {
	v, err = p.cache.Get(sid)
	switch err {
	case caches.ErrMissedKey:
		err = ErrNotFoundSession
	}
	return
}

// 为现有的session数据更换sid""")]),
('ref','C16','create inline',[(P,"	sess = p.create(sid, params...)\n	return","	return p.create(sid, params...), nil"),(P,"	sess = newSessData(p, store, len(params) > 0)","	sess = newSessData(p, store, len(params) != 0)")]),
('ref','C16','errors is',[(P,"		if err == caches.ErrMissedKey {\n			err = ErrNotFoundSession\n		}\n		return\n	}\n\n	var values","		if errors.Is(err, caches.ErrMissedKey) {\n			return nil, ErrNotFoundSession\n		}\n		return nil, err\n	}\n\n	var values"),(P,"import (","import (\n	\"errors\"\n")]),
('ref','C16','regenerate switch',[(M,"""	if err == ErrNotFoundSession {
		// 未找到时创建新的
		sess, err = m.createSession(sid, params...)
	}
	if err != nil {
		return
	}
""","""	switch {
	case err == ErrNotFoundSession:
		sess, err = m.createSession(sid, params...)
		if err != nil {
			return nil, createdAt, err
		}
	case err != nil:
		return
	}
""")]),
]

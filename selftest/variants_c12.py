U='sessions/utils.go'; M='sessions/manager.go'; R='sessions/remember.go'
V=[
('bug','C12','prefix compare',[(U,"if hex.EncodeToString(h.Sum(nil)) != vHash {","if !strings.HasPrefix(hex.EncodeToString(h.Sum(nil)), vHash) {")]),
('bug','C12','short hash both sides',[(U,"if hex.EncodeToString(h.Sum(nil)) != vHash {","if hex.EncodeToString(h.Sum(nil))[:16] != vHash {"),(U,"hash := hex.EncodeToString(h.Sum(nil))\n","hash := hex.EncodeToString(h.Sum(nil))[:16]\n")]),
('bug','C12','no separator',[(U,"vRaw + COOKIE_VALUE_SPLIT + vCreated","vRaw + vCreated"),(U,"raw + COOKIE_VALUE_SPLIT + timeValue)); err","raw + timeValue)); err")]),
('bug','C12','time not signed',[(U,"vRaw + COOKIE_VALUE_SPLIT + vCreated","vRaw + COOKIE_VALUE_SPLIT"),(U,"raw + COOKIE_VALUE_SPLIT + timeValue)); err","raw + COOKIE_VALUE_SPLIT)); err")]),
('bug','C12','second precision',[(U,"createdAt = time.Unix(0, vTime)","createdAt = time.Unix(vTime/int64(time.Second), 0)")]),
('bug','C12','sprintf seconds',[(U,"strconv.FormatInt(createdAt.UnixNano(), 10)","strconv.FormatInt(createdAt.Unix()*1000000000, 10)")]),
('bug','C12','std encoding fallback',[(U,"value = base64.URLEncoding.EncodeToString","value = base64.StdEncoding.EncodeToString")]),
('bug','C12','path escape',[(U,"src := url.QueryEscape(raw)","src := url.PathEscape(raw)")]),
('bug','C12','parse error ignored',[(U,"if err != nil || vTime <= 0 {","if vTime <= 0 {")]),
('bug','C12','key default',[(U,"	h := hmac.New(sha1.New, []byte(secretKey))\n	_, err = h.Write","	if len(secretKey) > 64 {\n		secretKey = secretKey[:64]\n	}\n	h := hmac.New(sha1.New, []byte(secretKey))\n	_, err = h.Write")]),
('bug','C12','raw before refusal',[(U,"	h := hmac.New(sha1.New, []byte(secretKey))\n	_, err = h.Write","	raw = vRaw\n	h := hmac.New(sha1.New, []byte(secretKey))\n	_, err = h.Write")]),
('bug','C12','empty key allowed',[(U,"if raw == \"\" || secretKey == \"\" {","if raw == \"\" {")]),
('bug','C12','sum appended',[(U,"if hex.EncodeToString(h.Sum(nil)) != vHash {","if sum := hex.EncodeToString(h.Sum(nil)); len(vHash) == len(sum) && sum != vHash {")]),
('ref','C12','hmac equal',[(U,"if hex.EncodeToString(h.Sum(nil)) != vHash {","if !hmac.Equal([]byte(hex.EncodeToString(h.Sum(nil))), []byte(vHash)) {")]),
('ref','C12','hmac equal decoded',[(U,"	if hex.EncodeToString(h.Sum(nil)) != vHash {","	given, err := hex.DecodeString(vHash)\n	if err != nil || !hmac.Equal(given, h.Sum(nil)) {")]),
('ref','C12','sign helper',[(U,"""	h := hmac.New(sha1.New, []byte(secretKey))
	_, err = h.Write([]byte(vRaw + COOKIE_VALUE_SPLIT + vCreated))
	if err != nil {
		return
	}

	if hex.EncodeToString(h.Sum(nil)) != vHash {
		return
	}
""","""	if sign(vRaw, vCreated, secretKey) != vHash {
		return
	}
"""),(U,"""	h := hmac.New(sha1.New, []byte(secretKey))
	if _, err := h.Write([]byte(raw + COOKIE_VALUE_SPLIT + timeValue)); err != nil {
		return
	}

	hash := hex.EncodeToString(h.Sum(nil))
""","""	hash := sign(raw, timeValue, secretKey)
"""),(U,"func GetRawFromSecureValue","""func sign(raw, created, key string) string {
	h := hmac.New(sha1.New, []byte(key))
	h.Write([]byte(raw))
	h.Write([]byte(COOKIE_VALUE_SPLIT + created))
	return hex.EncodeToString(h.Sum(nil))
}

func GetRawFromSecureValue""")]),
('ref','C12','join and split',[(U,"""	src := url.QueryEscape(raw)
	src += COOKIE_VALUE_SPLIT + timeValue + COOKIE_VALUE_SPLIT + hash
""","""	src := url.QueryEscape(raw) + COOKIE_VALUE_SPLIT
	src += timeValue
	src += COOKIE_VALUE_SPLIT + hash
"""),(U,"parts := strings.SplitN(value, COOKIE_VALUE_SPLIT, 3)\n	if len(parts) < 3 {","parts := strings.SplitN(value, COOKIE_VALUE_SPLIT, 3)\n	if len(parts) != 3 {")]),
# C13
('bug','C13','first cookie',[(U,"for i := len(cookies) - 1; i >= 0; i-- {","for i := 0; i < len(cookies); i++ {")]),
('bug','C13','expiry other config',[(M,"isExpired(vTime, int2SecsDuration(config.SessionExpire))","config.SessionExpire > 0 && isExpired(vTime, int2SecsDuration(config.SessionExpire))")]),
('bug','C13','expiry reversed args',[(U,"return createdAt.Add(expired).Before(time.Now())","return time.Now().Before(createdAt.Add(-expired))")]),
('bug','C13','minutes',[(U,"return time.Duration(t) * time.Second","return time.Duration(t) * time.Minute")]),
('bug','C13','remember lifetime of the session',[(R,"isExpired(createdAt, int2SecsDuration(config.RememberExpire)) {\n		ok = false\n		return\n	}\n\n	parts","isExpired(createdAt, int2SecsDuration(cfg.SessionExpire)) {\n		ok = false\n		return\n	}\n\n	parts")]),
('bug','C13','ok on empty parts',[(R,"	if len(parts) != 2 {\n		ok = false\n		return\n	}","	if len(parts) != 2 {\n		psk = value\n		return\n	}")]),
('bug','C13','valid without salt',[(R,"DecodeSecureValue(saltHash, cfg.SecretKey+salt)","DecodeSecureValue(saltHash, cfg.SecretKey)"),(R,"EncodeSecureValue(psk, sk+salt, createdAt)","EncodeSecureValue(psk, sk, createdAt)")]),
('bug','C13','psk prefix',[(R,"if uPsk != psk {","if !strings.HasPrefix(uPsk, psk) {")]),
('bug','C13','valid expiry dropped',[(R,"""	if isExpired(createdAt, int2SecsDuration(config.RememberExpire)) {
		ok = false
		return
	}

	if uPsk != psk {""","""	_ = createdAt
	if uPsk != psk {""")]),
('bug','C13','sid from raw',[(M,"""	value, vTime, exists := DecodeSecureValue(value, config.SecretKey)
	if !exists {
		return
	}
""","""	rawValue := value
	value, vTime, exists := DecodeSecureValue(value, config.SecretKey)
	if !exists {
		return
	}
	if rv := GetRawFromSecureValue(rawValue); rv != "" {
		value = rv
	}
""")]),
('bug','C13','unescaped psk',[(R,"value := url.QueryEscape(psk) + COOKIE","value := psk + COOKIE")]),
('bug','C13','sid before expiry',[(M,"	// cookie 创建时间超过","	sid = value\n	// cookie 创建时间超过")]),
('bug','C13','created now',[(M,"	created = vTime\n","	created = time.Now()\n	_ = vTime\n")]),
('ref','C13','since',[(U,"return createdAt.Add(expired).Before(time.Now())","return time.Since(createdAt) > expired")]),
('ref','C13','after',[(U,"return createdAt.Add(expired).Before(time.Now())","deadline := createdAt.Add(expired)\n	return time.Now().After(deadline)")]),
('ref','C13','forward last wins',[(U,"""	for i := len(cookies) - 1; i >= 0; i-- {
		if cookies[i].Name == name {
			ok = true
			cookie = cookies[i]
			break
		}
	}
	return
""","""	for _, c := range cookies {
		if c.Name == name {
			cookie = c
		}
	}
	ok = cookie != nil
	return
""")]),
('ref','C13','early return in search',[(U,"""			ok = true
			cookie = cookies[i]
			break
""","""			return cookies[i], true
""")]),
('ref','C13','valid in one expression',[(R,"""	if isExpired(createdAt, int2SecsDuration(config.RememberExpire)) {
		ok = false
		return
	}

	if uPsk != psk {
		ok = false
		return
	}

	return
}

func (m *SessionManager) WriteR""","""	return !isExpired(createdAt, int2SecsDuration(config.RememberExpire)) && uPsk == psk
}

func (m *SessionManager) WriteR""")]),
('ref','C13','read values helper',[(R,"""	value, createdAt, ok := DecodeSecureValue(cookie.Value, cfg.SecretKey)
	if !ok {
		return
	}

	if isExpired(createdAt, int2SecsDuration(config.RememberExpire)) {
		ok = false
		return
	}

	parts""","""	value, ok := rememberValue(config, cookie.Value, cfg.SecretKey)
	if !ok {
		return
	}

	parts"""),(R,"func createRemember","""func rememberValue(config *CookieConfig, value, key string) (string, bool) {
	raw, createdAt, ok := DecodeSecureValue(value, key)
	if !ok || isExpired(createdAt, int2SecsDuration(config.RememberExpire)) {
		return "", false
	}
	return raw, true
}

func createRemember""")]),
# C14
('bug','C14','not httponly when insecure',[(M,"		Path:     \"/\",\n		HttpOnly: true,\n		Secure:   config.CookieSecure,\n		Domain:   config.CookieDomain,\n	}\n\n	if config","		Path:     \"/\",\n		HttpOnly: config.CookieSecure,\n		Secure:   config.CookieSecure,\n		Domain:   config.CookieDomain,\n	}\n\n	if config")]),
('bug','C14','delete without domain',[(M,"		MaxAge:   -1,\n		Domain:   config.CookieDomain,\n","		MaxAge:   -1,\n")]),
('bug','C14','maxage only positive, else year',[(M,"	if config.CookieExpire >= 0 {\n		cookie.MaxAge = config.CookieExpire\n	}\n","	if config.CookieExpire >= 0 {\n		cookie.MaxAge = config.CookieExpire\n	} else {\n		cookie.MaxAge = m.provider.Config().SessionExpire\n	}\n")]),
('bug','C14','remember secure off',[(R,"		Value:    value,\n		Path:     \"/\",\n		HttpOnly: true,\n		Secure:   config.CookieSecure,","		Value:    value,\n		Path:     \"/\",\n		HttpOnly: true,\n		Secure:   config.CookieSecure && config.RememberExpire > 0,")]),
('bug','C14','remember not deleted',[(R,"		MaxAge:   -1,\n","		MaxAge:   0,\n")]),
('bug','C14','raw sid fallback',[(M,"	if !ok {\n		return\n	}\n\n	cookie := &http.Cookie{","	if !ok {\n		value = sid\n	}\n\n	cookie := &http.Cookie{")]),
('bug','C14','request cookie missing',[(M,"	r.AddCookie(cookie)\n","	if cookie.MaxAge > 0 {\n		r.AddCookie(cookie)\n	}\n")]),
('bug','C14','lifetime of the session',[(M,"		cookie.MaxAge = config.CookieExpire\n","		cookie.MaxAge = cfg.SessionExpire\n")]),
('bug','C14','remember expire cookie expire',[(R,"		MaxAge:   config.RememberExpire,","		MaxAge:   config.CookieExpire,")]),
('ref','C14','cookie builder',[(M,"""	cookie := &http.Cookie{
		Name:     config.CookieName,
		Path:     "/",
		HttpOnly: true,
		Secure:   config.CookieSecure,
		Expires:  time.Now(),
		MaxAge:   -1,
		Domain:   config.CookieDomain,
	}
""","""	cookie := config.cookie("")
	cookie.Expires = time.Now()
	cookie.MaxAge = -1
"""),(M,"""	cookie := &http.Cookie{
		Name:     config.CookieName,
		Value:    value,
		Path:     "/",
		HttpOnly: true,
		Secure:   config.CookieSecure,
		Domain:   config.CookieDomain,
	}

	if config.CookieExpire >= 0 {
		cookie.MaxAge = config.CookieExpire
	}
""","""	cookie := config.cookie(value)
	if config.CookieExpire > 0 {
		cookie.MaxAge = config.CookieExpire
	}
"""),(M,"// 创建新 Session\n","""func (config *CookieConfig) cookie(value string) *http.Cookie {
	return &http.Cookie{
		Name:     config.CookieName,
		Value:    value,
		Path:     "/",
		HttpOnly: true,
		Secure:   config.CookieSecure,
		Domain:   config.CookieDomain,
	}
}

// 创建新 Session
""")]),
]

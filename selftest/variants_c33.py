F = 'utils/rand.go'; S = 'sessions/utils.go'
V = []
def bug(t, *e): V.append(('bug', 'C33', t, [(x[0], x[1], x[2]) if len(x) == 3 else (F, x[0], x[1]) for x in e]))
def ref(t, *e): V.append(('ref', 'C33', 't33 ' + t, [(x[0], x[1], x[2]) if len(x) == 3 else (F, x[0], x[1]) for x in e]))
READ = '''	if num, err := rand.Read(bytes); num != n || err != nil {
		if err == nil {
			err = fmt.Errorf("random string not enough length: need %d but %d", n, num)
		}
		return nil, err
	}
'''
LOOP = '''	for i, b := range bytes {
		bytes[i] = alphabets[int(b)%len(alphabets)]
	}
'''
STR = '''	bytes, err := RandomCreateBytes(n, alphabets...)
	return string(bytes), err
'''
MUST = '''	b, err := RandomCreateBytes(n, alphabets...)
	if err != nil {
		panic(err)
	}
	return b
'''
MSTR = '''	return string(MustRandomCreateBytes(n, alphabets...))
'''
SID = '''	bytes, err := utils.RandomCreateBytes(SESSION_ID_LENGTH-len(prefix), _SESSION_ALPHABETS...)
	if err != nil {
		panic(err)
	}
	sid = prefix + string(bytes)
	return
'''
bug('byte modulus', ('alphabets[int(b)%len(alphabets)]', 'alphabets[b%byte(len(alphabets))]'))
bug('error ignored', (READ, '	rand.Read(bytes)\n'), ('	"fmt"\n', ''))
bug('math rand', ('"crypto/rand"', '"math/rand"'))
bug('last left', (LOOP, LOOP.replace('range bytes', 'range bytes[1:]')))
bug('index not byte', (LOOP, LOOP.replace('int(b)%', 'i%').replace('i, b :=', 'i :=')))
bug('default modulus', (LOOP, LOOP.replace('len(alphabets)', 'len(DefaultAlphabets)')))
bug('neighbour', (LOOP, '''	for i := range bytes {
		bytes[i] = alphabets[int(bytes[0])%len(alphabets)]
	}
'''))
bug('alphabet of one', ('len(alphabets) == 0', 'len(alphabets) <= 1'))
bug('zero bytes kept', (LOOP, LOOP.replace('		bytes[i]', '		if b == 0 {\n			continue\n		}\n		bytes[i]')))
bug('shorter buffer', ('make([]byte, n)', 'make([]byte, n, n+1)[:n/2+n/2]'))
bug('error with token', ('		return nil, err\n	}\n	for', '		return bytes, err\n	}\n	for'))
bug('only count', (READ, '''	if num, _ := rand.Read(bytes); num == 0 && n > 0 {
		return nil, fmt.Errorf("no random bytes")
	}
'''))
bug('half read', (READ, READ.replace('rand.Read(bytes)', 'rand.Read(bytes[:n/2])').replace('num != n', 'num != n/2')))
bug('string without alphabet', (STR, STR.replace(', alphabets...', '')))
bug('string drops error', (STR, STR.replace('bytes, err :=', 'bytes, _ :=').replace(', err\n', ', nil\n')))
bug('must no panic', (MUST, MUST.replace('		panic(err)', '		return nil')))
bug('must retry default', (MUST, MUST.replace('		panic(err)', '		return make([]byte, n)')))
bug('must string length', (MSTR, MSTR.replace('(n,', '(n/2,')))
bug('sid short', (S, SID, SID.replace('SESSION_ID_LENGTH-len(prefix)', 'SESSION_ID_LENGTH-len(prefix)-4')))
bug('sid without random', (S, SID, SID.replace('prefix + string(bytes)', 'prefix + prefix[:SESSION_ID_LENGTH-len(prefix)]').replace('bytes, err', '_, err')))
bug('sid cut', (S, SID, SID.replace('sid = prefix + string(bytes)', 'sid = (prefix + string(bytes))[:12]')))
bug('sid error', (S, SID, SID.replace('		panic(err)', '		return prefix')))
bug('sid error ignored', (S, SID, SID.replace('bytes, err :=', 'bytes, _ :=').replace('''	if err != nil {
		panic(err)
	}
''', '')))
bug('sid random twice', (S, SID, SID.replace('SESSION_ID_LENGTH-len(prefix)', '(SESSION_ID_LENGTH-len(prefix))/2').replace('prefix + string(bytes)', 'prefix + string(bytes) + string(bytes)')))
ref('new buffer', (LOOP, '''	out := make([]byte, n)
	for i, b := range bytes {
		out[i] = alphabets[int(b)%len(alphabets)]
	}
	bytes = out
'''))
ref('counted', (LOOP, '''	size := len(alphabets)
	for i := 0; i < n; i++ {
		bytes[i] = alphabets[int(bytes[i])%size]
	}
'''))
ref('len counted', (LOOP, '''	for i := 0; i < len(bytes); i++ {
		bytes[i] = alphabets[int(bytes[i])%len(alphabets)]
	}
'''))
ref('readfull', (READ, '''	if _, err := io.ReadFull(rand.Reader, bytes); err != nil {
		return nil, err
	}
'''), ('"fmt"', '"io"'))
ref('err only', (READ, '''	_, err := rand.Read(bytes)
	if err != nil {
		return nil, err
	}
'''), ('	"fmt"\n', ''))
ref('alphabet helper', ('''	if len(alphabets) == 0 {
		alphabets = DefaultAlphabets
	}
''', '''	alphabets = orDefault(alphabets)
'''), ('func RandomCreateString', '''func orDefault(alphabets []byte) []byte {
	if len(alphabets) > 0 {
		return alphabets
	}
	return DefaultAlphabets
}

func RandomCreateString'''))
ref('fill helper', (READ, '''	if err := fill(bytes); err != nil {
		return nil, err
	}
'''), ('func RandomCreateString', '''func fill(b []byte) error {
	num, err := rand.Read(b)
	if err == nil && num != len(b) {
		err = fmt.Errorf("random string not enough length: need %d but %d", len(b), num)
	}
	return err
}

func RandomCreateString'''))
ref('map helper', (LOOP, '	translate(bytes, alphabets)\n'), ('func RandomCreateString', '''func translate(b, alphabet []byte) {
	for i := range b {
		b[i] = alphabet[int(b[i])%len(alphabet)]
	}
}

func RandomCreateString'''))
ref('string checks', (STR, '''	bytes, err := RandomCreateBytes(n, alphabets...)
	if err != nil {
		return "", err
	}
	return string(bytes), nil
'''))
ref('must string direct', (MSTR, '''	s, err := RandomCreateString(n, alphabets...)
	if err != nil {
		panic(err)
	}
	return s
'''))
ref('sid must', (S, SID, '''	return prefix + utils.MustRandomCreateString(SESSION_ID_LENGTH-len(prefix), _SESSION_ALPHABETS...)
'''))
ref('sid length var', (S, SID, SID.replace('	bytes, err := utils.RandomCreateBytes(SESSION_ID_LENGTH-len(prefix),', '	rest := SESSION_ID_LENGTH - len(prefix)\n	bytes, err := utils.RandomCreateBytes(rest,')))
ref('append', (LOOP, '''	out := make([]byte, 0, n)
	for _, b := range bytes {
		out = append(out, alphabets[int(b)%len(alphabets)])
	}
	bytes = out
'''))
bug('append skips', (LOOP, '''	out := make([]byte, 0, n)
	for _, b := range bytes {
		if b != 0 {
			out = append(out, alphabets[int(b)%len(alphabets)])
		}
	}
	bytes = out
'''))

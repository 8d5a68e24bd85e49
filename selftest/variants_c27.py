E_='utils/apires/error.go'; R='utils/apires/raw.go'; B='utils/apires/res.go'
V=[
('bug','C27','status after body',[(B,'''	rw.WriteHeader(status)

	if err == nil {
		_, err = rw.Write(resBody)
''','''
	if err == nil {
		_, err = rw.Write(resBody)
		rw.WriteHeader(status)
''')]),
('bug','C27','204 with body',[(B,'	if status == http.StatusNoContent {\n		rw.WriteHeader(status)\n		return\n	}\n\n','')]),
('bug','C27','304 like 204 only',[(B,'status == http.StatusNoContent','status == http.StatusNotModified')]),
('bug','C27','failure with own status',[(B,'''	if err != nil {
		status = http.StatusInternalServerError
	}
''','')]),
('bug','C27','failure only when ok',[(B,'''	if err != nil {
		status = http''','''	if err != nil && status == http.StatusOK {
		status = http''')]),
('bug','C27','type after header',[(B,'''	rw.Header().Set("Content-Type", jsonContentType)
	rw.WriteHeader(status)
''','''	rw.WriteHeader(status)
	rw.Header().Set("Content-Type", jsonContentType)
''')]),
('bug','C27','type only on success',[(B,'''	rw.Header().Set("Content-Type", jsonContentType)
''','''	if err == nil {
		rw.Header().Set("Content-Type", jsonContentType)
	}
''')]),
('bug','C27','wrong type',[(B,'application/json; charset','text/plain; charset')]),
('bug','C27','default created',[(B,'	if status == 0 {\n		status = http.StatusOK','	if status == 0 {\n		status = http.StatusCreated')]),
('bug','C27','status below 200',[(B,'	if status == 0 {\n		status = http.StatusOK','	if status < 200 {\n		status = http.StatusOK')]),
('bug','C27','default stored',[(B,'	if status == 0 {\n		status = http.StatusOK','	if status == 0 {\n		r.Status = http.StatusOK\n		status = r.Status')]),
('bug','C27','raw nil body sent',[(R,'status == http.StatusNoContent || r.Body == nil','status == http.StatusNoContent')]),
('bug','C27','raw 204 sent',[(R,'status == http.StatusNoContent || r.Body == nil','r.Body == nil')]),
('bug','C27','reader not closed',[(R,'		if c, ok := r.Body.(io.Closer); ok {\n			c.Close()\n		}\n','')]),
('bug','C27','reader closed only on error',[(R,'r.Body.(io.Closer); ok {','r.Body.(io.Closer); ok && err != nil {')]),
('bug','C27','reader closed first',[(R,'''		_, err = io.CopyBuffer(rw, v, buf)
		if c, ok := r.Body.(io.Closer); ok {
			c.Close()
		}
''','''		if c, ok := r.Body.(io.Closer); ok {
			c.Close()
		}
		_, err = io.CopyBuffer(rw, v, buf)
''')]),
('bug','C27','reader limited',[(R,'_, err = io.CopyBuffer(rw, v, buf)','_ = buf\n		_, err = io.CopyN(rw, v, 1<<20)')]),
('bug','C27','reader once',[(R,'_, err = io.CopyBuffer(rw, v, buf)','n := 0\n		n, err = v.Read(buf)\n		rw.Write(buf[:n])')]),
('bug','C27','text as json',[(R,'''	case string:
		rw.WriteHeader(status)
		_, err = rw.Write([]byte(v))
''','')]),
('bug','C27','bytes as json',[(R,'''	case []byte:
		rw.WriteHeader(status)
		_, err = rw.Write(v)
''','')]),
('bug','C27','text without status',[(R,'''	case string:
		rw.WriteHeader(status)
''','''	case string:
''')]),
('bug','C27','raw json default status',[(R,'writeJsonBody(status, r.Body','writeJsonBody(http.StatusOK, r.Body')]),
('bug','C27','raw json r.Status',[(R,'writeJsonBody(status, r.Body','writeJsonBody(r.Status, r.Body')]),
('bug','C27','error body old',[(E_,'	ne.ResBody = ResBody{Status: ne.Status, Body: &ne}\n	ne.Data = data\n','	ne.Data = data\n')]),
('bug','C27','error body receiver',[(E_,'''	ne.Message = message
	ne.ResBody = ResBody{Status: ne.Status, Body: &ne}''','''	ne.Message = message
	ne.ResBody = ResBody{Status: ne.Status, Body: e}''')]),
('bug','C27','error body by value',[(E_,'''	ne.Message = message
	ne.ResBody = ResBody{Status: ne.Status, Body: &ne}''','''	ne.Message = message
	ne.ResBody = ResBody{Status: ne.Status, Body: ne}''')]),
('bug','C27','error status lost',[(E_,'''	ne.Message = message
	ne.ResBody = ResBody{Status: ne.Status, Body: &ne}''','''	ne.Message = message
	ne.ResBody = ResBody{Body: &ne}''')]),
('bug','C27','error code as status',[(E_,'''	ne.Message = message
	ne.ResBody = ResBody{Status: ne.Status, Body: &ne}''','''	ne.Message = message
	ne.ResBody = ResBody{Status: ne.Code, Body: &ne}''')]),
('bug','C27','derived in place',[(E_,'''	ne := *e
	ne.Message = message
	ne.ResBody = ResBody{Status: ne.Status, Body: &ne}
	return &ne''','''	e.Message = message
	return e''')]),
('bug','C27','derived shares',[(E_,'''func (e *ResError) WithData(data interface{}, message ...string) *ResError {
	ne := *e
''','''func (e *ResError) WithData(data interface{}, message ...string) *ResError {
	e.Data = data
	ne := *e
''')]),
('bug','C27','data message wins',[(E_,'''	if len(message) > 0 {
		ne.Message = message[0]
	} else {
		switch''','''	if len(message) > 0 {
		ne.Message = message[0]
	}
	{
		switch''')]),
('bug','C27','second message',[(E_,'''	if len(message) > 0 {
		ne.Message = message[0]''','''	if len(message) > 1 {
		ne.Message = message[1]''')]),
('bug','C27','msgf unformatted',[(E_,'e.WithMsg(fmt.Sprintf(format, a...))','e.WithMsg(fmt.Sprint(a...) + format)')]),
('bug','C27','new error without body',[(E_,'	er.Body = er\n','')]),
('bug','C27','new error swapped',[(E_,'&ResError{Code: code, Message: message, Data: data}\n	er.Status = status','&ResError{Code: status, Message: message, Data: data}\n	er.Status = code')]),
('bug','C27','new error data list',[(E_,'		data = datas[0]','		data = datas')]),
('bug','C27','equal by code',[(E_,'e.Status == er.Status && e.Code == er.Code','e.Code == er.Code')]),
('bug','C27','equal or',[(E_,'e.Status == er.Status && e.Code == er.Code','e.Status == er.Status || e.Code == er.Code')]),
('bug','C27','equal first only',[(E_,'''			return true
		}
	}
	return false''','''			return true
		}
		return false
	}
	return false''')]),
('bug','C27','http code is code',[(E_,'	return e.Status\n','	return e.Code\n')]),
('bug','C27','with ignores status',[(B,'		code = status[0]','		code = len(status)')]),
('bug','C27','raw ret without status',[(R,'&RawBody{Status: status}','&RawBody{Status: http.StatusOK}')]),
('ref','C27','switch status',[(B,'''	status, body := r.Status, r.Body
	if status == 0 {
		status = http.StatusOK
	}
	if body == nil {
		body = struct{}{}
	}

	if status == http.StatusNoContent {
		rw.WriteHeader(status)
		return
	}
''','''	status := r.Status
	switch status {
	case http.StatusNoContent:
		rw.WriteHeader(http.StatusNoContent)
		return
	case 0:
		status = http.StatusOK
	}
	body := r.Body
	if body == nil {
		body = struct{}{}
	}
''')]),
('ref','C27','helper status',[(B,'''	status, body := r.Status, r.Body
	if status == 0 {
		status = http.StatusOK
	}
''','''	status, body := statusOr(r.Status), r.Body
'''),(R,'''	status := r.Status
	if status == 0 {
		status = http.StatusOK
	}
''','''	status := statusOr(r.Status)
'''),(B,'func With(','''func statusOr(status int) int {
	if status == 0 {
		return http.StatusOK
	}
	return status
}

func With(''')]),
('ref','C27','helper marshal',[(B,'''	if config.RunMode.IsDev() {
		resBody, err = json.MarshalIndent(body, "", "  ")
	} else {
		resBody, err = json.Marshal(body)
	}
''','''	dev := config.RunMode.IsDev()
	resBody, err = encode(dev, body)
'''),(B,'''		if config.RunMode.IsDev() {
			resBody, _ = json.MarshalIndent(res, "", "  ")
		} else {
			resBody, _ = json.Marshal(res)
		}
		rw.Write(resBody)
''','''		resBody, _ = encode(dev, res)
		rw.Write(resBody)
'''),(B,'func With(','''func encode(indent bool, v interface{}) ([]byte, error) {
	if indent {
		return json.MarshalIndent(v, "", "  ")
	}
	return json.Marshal(v)
}

func With(''')]),
('ref','C27','early failure',[(B,'''	if err != nil {
		status = http.StatusInternalServerError
	}
	rw.Header().Set("Content-Type", jsonContentType)
	rw.WriteHeader(status)

	if err == nil {
		_, err = rw.Write(resBody)
	} else {
''','''	rw.Header().Set("Content-Type", jsonContentType)
	if err == nil {
		rw.WriteHeader(status)
		_, err = rw.Write(resBody)
		return err
	}
	rw.WriteHeader(http.StatusInternalServerError)
	{
''')]),
('ref','C27','raw if chain',[(R,'''	switch v := r.Body.(type) {
	case string:
		rw.WriteHeader(status)
		_, err = rw.Write([]byte(v))
	case []byte:
		rw.WriteHeader(status)
		_, err = rw.Write(v)
	case io.Reader:
''','''	if s, ok := r.Body.(string); ok {
		rw.WriteHeader(status)
		_, err = io.WriteString(rw, s)
	} else if p, ok := r.Body.([]byte); ok {
		rw.WriteHeader(status)
		_, err = rw.Write(p)
	} else {
	switch v := r.Body.(type) {
	case io.Reader:
'''),(R,'''	if err != nil {
		var''','''	}
	if err != nil {
		var''')]),
('ref','C27','deferred close',[(R,'''		if c, ok := r.Body.(io.Closer); ok {
			c.Close()
		}
''',''),(R,'''		buf := make([]byte, 4*1024)
		_, err = io.CopyBuffer(rw, v, buf)
''','''		if c, ok := v.(io.Closer); ok {
			defer c.Close()
		}
		_, err = io.Copy(rw, v)
''')]),
('ref','C27','derive helper',[(E_,'''	ne.ResBody = ResBody{Status: ne.Status, Body: &ne}
	ne.Data = data
	return &ne
''','''	ne.Body = &ne
	ne.Data = data
	return &ne
'''),(E_,'''	ne := *e
	ne.Message = message
	ne.ResBody = ResBody{Status: ne.Status, Body: &ne}
	return &ne
''','''	ne := e.clone()
	ne.Message = message
	return ne
'''),(E_,'func (e *ResError) WithMsgf','''func (e *ResError) clone() *ResError {
	ne := *e
	ne.Body = &ne
	return &ne
}

func (e *ResError) WithMsgf''')]),
('ref','C27','fresh literal',[(E_,'''	ne := *e
	ne.Message = message
	ne.ResBody = ResBody{Status: ne.Status, Body: &ne}
	return &ne
''','''	ne := NewResError(e.Status, e.Code, message, e.Data)
	return ne
''')]),
('ref','C27','equal continue',[(E_,'''		if e.Status == er.Status && e.Code == er.Code {
			return true
		}
''','''		if e.Status != er.Status {
			continue
		}
		if e.Code == er.Code {
			return true
		}
''')]),
('ref','C27','equal helper',[(E_,'''		if e.Status == er.Status && e.Code == er.Code {
''','''		if e.same(er) {
'''),(E_,'func (e *ResError) WithMsgf','''func (e *ResError) same(o *ResError) bool {
	return e.Status == o.Status && e.Code == o.Code
}

func (e *ResError) WithMsgf''')]),
('ref','C27','const type',[(B,'var jsonContentType =','const jsonContentType =')]),
('ref','C27','equal method code',[(E_,'e.Status == er.Status &&','e.HttpCode() == er.HttpCode() &&')]),
]

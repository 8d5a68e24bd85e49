O='router_action_out.go'
V=[
('bug','C28','written not asked',[(O,"		if ctx.Written() {\n			return\n		}\n\n		var rw","		var rw")]),
('bug','C28','next after',[(O,"		ctx.Next()\n\n		if ctx.Written()","		defer ctx.Next()\n\n		if ctx.Written()")]),
('bug','C28','written before next',[(O,"		ctx.Next()\n\n		if ctx.Written() {\n			return\n		}","		if ctx.Written() {\n			return\n		}\n		ctx.Next()")]),
('bug','C28','body first',[(O,"			body = out[len(out)-2]","			body = out[0]")]),
('bug','C28','status after body',[(O,"			rw.WriteHeader(int(code))\n","			defer rw.WriteHeader(int(code))\n")]),
('bug','C28','single int index',[(O,"			if len(out) == 1 {\n				return\n			}\n","")]),
('bug','C28','empty index',[(O,"		if len(out) == 0 {\n			return\n		}\n","")]),
('bug','C28','nil check dropped ptr',[(O,"reflect.Map, reflect.Ptr, reflect.Slice","reflect.Map, reflect.Slice")]),
('bug','C28','nil check struct',[(O,"reflect.Map, reflect.Ptr, reflect.Slice","reflect.Map, reflect.Ptr, reflect.Slice, reflect.Struct")]),
('bug','C28','reader before closer',[(O,"		case io.ReadCloser:\n			defer src.Close()\n			io.Copy(rw, src)\n		case io.Reader:\n			io.Copy(rw, src)\n","		case io.Reader:\n			io.Copy(rw, src)\n		case io.ReadCloser:\n			defer src.Close()\n			io.Copy(rw, src)\n")]),
('bug','C28','handler before result',[(O,"		case ActionResult:\n			src.Write(ctx, rw, req)\n		case http.Handler:\n			src.ServeHTTP(rw, req)\n","		case http.Handler:\n			src.ServeHTTP(rw, req)\n		case ActionResult:\n			src.Write(ctx, rw, req)\n")]),
('bug','C28','closed early',[(O,"			defer src.Close()\n","			src.Close()\n")]),
('bug','C28','error default written',[(O,"			rw.Write(src)\n		}","			rw.Write(src)\n		case error:\n			rw.Write([]byte(src.Error()))\n		}")]),
('bug','C28','limited copy',[(O,"			io.Copy(rw, src)\n		case string","			io.Copy(rw, io.LimitReader(src, 1<<20))\n		case string")]),
('bug','C28','text empty skipped',[(O,"			rw.Write([]byte(src))","			if src != \"\" {\n				rw.Write([]byte(src))\n			}")]),
('bug','C28','int64 as status',[(O,"out[len(out)-1].Kind() == reflect.Int {","out[len(out)-1].Kind() >= reflect.Int && out[len(out)-1].Kind() <= reflect.Int64 {")]),
('bug','C28','bytes trimmed',[(O,"			rw.Write(src)\n		}","			rw.Write(src[:len(src):len(src)-1])\n		}")]),
('bug','C28','status only for 2xx',[(O,"			rw.WriteHeader(int(code))\n","			if code != 200 {\n				rw.WriteHeader(int(code))\n			}\n")]),
('bug','C28','found early',[(O,"		ctx.Next()\n\n		if ctx.Written()","		var res ActionOut\n		ctx.Find(&res, \"\")\n		ctx.Next()\n\n		if ctx.Written()"),(O,"		var res ActionOut\n		ctx.Find(&res, \"\")\n		if res == nil","		if res == nil")]),
('bug','C28','handler in goroutine',[(O,"			src.ServeHTTP(rw, req)","			go src.ServeHTTP(rw, req)")]),
('ref','C28','last helper',[(O,"		if out[len(out)-1].Kind() == reflect.Int {\n			code := out[len(out)-1].Int()\n			rw.WriteHeader(int(code))\n\n			if len(out) == 1 {\n				return\n			}\n\n			body = out[len(out)-2]\n		} else {\n			body = out[len(out)-1]\n		}","		n := len(out) - 1\n		body = out[n]\n		if last := out[n]; last.Kind() == reflect.Int {\n			rw.WriteHeader(int(last.Int()))\n			if n < 1 {\n				return\n			}\n			body = out[n-1]\n		}")]),
('ref','C28','send helper',[(O,"		itf := body.Interface()\n		switch src := itf.(type) {\n		case ActionResult:\n			src.Write(ctx, rw, req)\n		case http.Handler:\n			src.ServeHTTP(rw, req)\n		case io.ReadCloser:\n			defer src.Close()\n			io.Copy(rw, src)\n		case io.Reader:\n			io.Copy(rw, src)\n		case string:\n			rw.Write([]byte(src))\n		case []byte:\n			rw.Write(src)\n		}\n	}\n}","		send(ctx, rw, req, body.Interface())\n	}\n}\n\nfunc send(ctx Context, rw http.ResponseWriter, req *http.Request, itf interface{}) {\n	if r, ok := itf.(ActionResult); ok {\n		r.Write(ctx, rw, req)\n		return\n	}\n	if h, ok := itf.(http.Handler); ok {\n		h.ServeHTTP(rw, req)\n		return\n	}\n	if r, ok := itf.(io.Reader); ok {\n		if cl, ok := r.(io.Closer); ok {\n			defer cl.Close()\n		}\n		io.Copy(rw, r)\n		return\n	}\n	switch v := itf.(type) {\n	case string:\n		io.WriteString(rw, v)\n	case []byte:\n		rw.Write(v)\n	}\n}")]),
('ref','C28','nil helper',[(O,"		switch body.Kind() {\n		case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice:\n			if body.IsNil() {\n				return\n			}\n		}\n","		if isNilBody(body) {\n			return\n		}\n"),(O,"// GenericOutFilter is","func isNilBody(v reflect.Value) bool {\n	k := v.Kind()\n	if k == reflect.Chan || k == reflect.Func || k == reflect.Interface || k == reflect.Map || k == reflect.Ptr || k == reflect.Slice {\n		return v.IsNil()\n	}\n	return false\n}\n\n// GenericOutFilter is")]),
('ref','C28','written nested',[(O,"		if ctx.Written() {\n			return\n		}\n\n		var rw http.ResponseWriter\n		ctx.Find(&rw)\n\n		var res ActionOut\n		ctx.Find(&res, \"\")\n		if res == nil {\n			return\n		}\n\n		out := res.Out()\n		if len(out) == 0 {\n			return\n		}\n","		if ctx.Written() {\n			return\n		}\n		var res ActionOut\n		if ctx.Find(&res, \"\"); res == nil {\n			return\n		}\n		var rw http.ResponseWriter\n		ctx.Find(&rw)\n		out := res.Out()\n		if len(out) < 1 {\n			return\n		}\n")]),
]

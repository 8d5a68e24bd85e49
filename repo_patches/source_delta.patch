From b20fd41e24b3c8661f77b53d7862e62bd7742dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:40 +0000
Subject: [PATCH 01/57] fix: Status() must not change once the header has been
 sent

---
 response.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/response.go b/response.go
index 3ba24d6..b47332e 100755
--- a/response.go
+++ b/response.go
@@ -49,6 +49,9 @@ type responseWriter struct {
 	once sync.Once
 
 	hijacked bool
+
+	// the header has been sent, status can not change any more
+	committed bool
 }
 
 // not really flush header, just save status code
@@ -56,6 +59,9 @@ func (rw *responseWriter) WriteHeader(s int) {
 	if s == 0 {
 		panic("http status code can not be zero")
 	}
+	if rw.committed {
+		return
+	}
 	rw.status = s
 }
 
@@ -66,6 +72,7 @@ func (rw *responseWriter) Write(b []byte) (int, error) {
 		if rw.status == 0 {
 			rw.status = http.StatusOK
 		}
+		rw.committed = true
 
 		if rw.hijacked {
 			return
-- 
2.43.0


From af167dfb962f981426f7d2c14748a62ba1ee1aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 02/57] fix: Flush must commit the recorded status and run the
 before hooks

---
 response.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/response.go b/response.go
index b47332e..20ede8e 100755
--- a/response.go
+++ b/response.go
@@ -123,6 +123,8 @@ func (rw *responseWriter) CloseNotify() <-chan bool {
 func (rw *responseWriter) Flush() {
 	flusher, ok := rw.ResponseWriter.(http.Flusher)
 	if ok {
+		// commit status and run before hooks, flushing sends the header
+		rw.Write(nil)
 		flusher.Flush()
 	}
 }
-- 
2.43.0


From c2c3de098c7590ed9e551288cd3a061f4fc9925e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 03/57] fix: escape the panic value in the development error
 page

---
 recovery.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/recovery.go b/recovery.go
index a95df22..3a46fab 100755
--- a/recovery.go
+++ b/recovery.go
@@ -51,7 +51,7 @@ pre.message,
 </style>
 </head><body>
 <h1>PANIC: %s</h1>
-<pre class="message">%T: %#v</pre>
+<pre class="message">%s</pre>
 <div class="stack">%s</div>
 </body>
 </html>`
@@ -90,7 +90,9 @@ func RecoveryFilter() inject.Provider {
 				var body []byte
 				if config.RunMode.IsDev() {
 					rw.Header().Set("Content-Type", "text/html; charset=utf-8")
-					body = []byte(fmt.Sprintf(panicHtml, err, err, err, err, styleStack(stack)))
+					title := html.EscapeString(fmt.Sprintf("%v", err))
+					message := html.EscapeString(fmt.Sprintf("%T: %#v", err, err))
+					body = []byte(fmt.Sprintf(panicHtml, title, title, message, styleStack(stack)))
 					rw.Write(body)
 				}
 			}
-- 
2.43.0


From c80aded60614d79979feb2597423df37d9ff3743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 04/57] fix: answer 500 for a panic even when no logger can be
 found

---
 recovery.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/recovery.go b/recovery.go
index 3a46fab..3883bd6 100755
--- a/recovery.go
+++ b/recovery.go
@@ -69,11 +69,10 @@ func RecoveryFilter() inject.Provider {
 				fErr := ctx.Find(&log, "")
 				if fErr != nil {
 					fmt.Fprintf(os.Stderr, "PANIC: %#v FindLog:%v\n%s", err, fErr, stack)
-					return
+				} else {
+					log.Errorf("PANIC: %#v\n%s", err, stack)
 				}
 
-				log.Errorf("PANIC: %#v\n%s", err, stack)
-
 				var rw http.ResponseWriter
 				ctx.Find(&rw, "")
 
-- 
2.43.0


From 6f59d9f9ea7a14da5d2ddd6c0bf16f3eee88bcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:10 +0000
Subject: [PATCH 05/57] fix: a literal path that is no route must not hide a
 matching param route

---
 router.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/router.go b/router.go
index 06636af..9d2ba7b 100755
--- a/router.go
+++ b/router.go
@@ -239,6 +239,10 @@ func (r *route) match(nextPaths []string, params *paramList) (rt *route) {
 				*params = append(*params, newParams...)
 			}
 		}
+		// a literal path without a route must not hide param routes
+		if rt != nil && !rt.isEnd {
+			rt = nil
+		}
 	}
 
 	// second match paramRoutes
-- 
2.43.0


From 82a93495a93c96892c16e9547ef6d0dc8de3506c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 06/57] fix: do not let a crafted http method name select an
 arbitrary controller method

---
 router_method.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/router_method.go b/router_method.go
index 18caec8..884a783 100755
--- a/router_method.go
+++ b/router_method.go
@@ -1,5 +1,7 @@
 package strip
 
+import "strings"
+
 const (
 	GET     method = "GET"
 	POST    method = "POST"
@@ -27,14 +29,10 @@ func (m method) isAny() bool {
 }
 
 func (m method) action() string {
-	chars := make([]rune, 0, len(m))
-	for i, s := range m {
-		if i != 0 {
-			s += 32
-		}
-		chars = append(chars, s)
+	if m == "" {
+		return ""
 	}
-	return string(chars)
+	return string(m[:1]) + strings.ToLower(string(m[1:]))
 }
 
 type MethodHandler interface {
-- 
2.43.0


From f433619d05b9c12c0ec091e486c1e5a01f143a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:14 +0000
Subject: [PATCH 07/57] fix: bind path values to the parameters of the method
 that is called

---
 router_action.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/router_action.go b/router_action.go
index 6337b31..eebc0d9 100755
--- a/router_action.go
+++ b/router_action.go
@@ -111,7 +111,16 @@ func (r *routerAction) wrapHandle(route *route, params paramList, action string)
 }
 
 func (r *routerAction) callStructFunc(ctx Context, params paramList, action string) []reflect.Value {
-	actionIn := r.controller.actionIn
+	m, ok := r.controller.pTyp.MethodByName(action)
+	if !ok {
+		panic(fmt.Sprintf("not found action func: %s", action))
+	}
+
+	// parameters of the method to call, without receiver
+	actionIn := make([]reflect.Type, 0, m.Type.NumIn())
+	for i := 1; i < m.Type.NumIn(); i++ {
+		actionIn = append(actionIn, m.Type.In(i))
+	}
 
 	in := make([]reflect.Value, 0, len(actionIn))
 	for i := 0; i < len(actionIn); i++ {
@@ -133,10 +142,6 @@ func (r *routerAction) callStructFunc(ctx Context, params paramList, action stri
 		in = append(in, value)
 	}
 
-	if !r.controller.actionFuncExists(action) {
-		panic(fmt.Sprintf("not found action func: %s", action))
-	}
-
 	newStruct := reflect.New(r.controller.typ)
 	if val := indirectValue(r.controller.val); val.IsValid() {
 		newStruct.Elem().Set(val)
-- 
2.43.0


From 7fa2d3d74b6ac16c0d26a1c1642df7fd4098dd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:16 +0000
Subject: [PATCH 08/57] fix: an unsupported slice type must not panic in string
 conversion

---
 app_util.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/app_util.go b/app_util.go
index 3ce03b3..427c11b 100755
--- a/app_util.go
+++ b/app_util.go
@@ -247,6 +247,9 @@ func convertStringAsType(str string, typ reflect.Type) (value reflect.Value) {
 	}
 
 	val := reflect.ValueOf(v)
+	if !val.IsValid() {
+		return
+	}
 	if val.Type().ConvertibleTo(iTyp) {
 		value = val.Convert(iTyp)
 	}
-- 
2.43.0


From fe784905d485247cf40c304e0d607e600a4ee2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 09/57] fix: StrTo.Uint must accept the whole range of uint

---
 app_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app_util.go b/app_util.go
index 427c11b..f4d57cd 100755
--- a/app_util.go
+++ b/app_util.go
@@ -91,7 +91,7 @@ func (f StrTo) Int64() (int64, error) {
 
 // string to uint
 func (f StrTo) Uint() (uint, error) {
-	v, err := strconv.ParseUint(f.String(), 10, 32)
+	v, err := strconv.ParseUint(f.String(), 10, 64)
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 6d80f6ab32a29586ada795bb54af97ee5935bfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 10/57] fix: Config.Find must honour the default value without
 a parent config

---
 config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/config.go b/config.go
index 8b41b67..4a147f6 100755
--- a/config.go
+++ b/config.go
@@ -66,6 +66,9 @@ func (c *Config) Find(name string, defaultValue ...string) string {
 		}
 		return value
 	}
+	if len(defaultValue) > 0 {
+		return defaultValue[0]
+	}
 	return ""
 }
 
-- 
2.43.0


From 85cc05731424613c75af9b817099842c39b58e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 11/57] fix: GenericOutFilter must not panic for string and
 struct results

---
 router_action_out.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/router_action_out.go b/router_action_out.go
index c8b574e..1651d33 100755
--- a/router_action_out.go
+++ b/router_action_out.go
@@ -66,9 +66,15 @@ func GenericOutFilter() interface{} {
 			body = out[len(out)-1]
 		}
 
-		if !body.CanInterface() || body.IsNil() {
+		if !body.CanInterface() {
 			return
 		}
+		switch body.Kind() {
+		case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice:
+			if body.IsNil() {
+				return
+			}
+		}
 
 		itf := body.Interface()
 		switch src := itf.(type) {
-- 
2.43.0


From 84e9993585c3e3b481b94099856089cc842245b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:24 +0000
Subject: [PATCH 12/57] fix: path values must be bindable to pointer parameters
 of an action

---
 router_action.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/router_action.go b/router_action.go
index eebc0d9..941d7b3 100755
--- a/router_action.go
+++ b/router_action.go
@@ -133,6 +133,17 @@ func (r *routerAction) callStructFunc(ctx Context, params paramList, action stri
 				param = v
 			}
 			value = convertStringAsType(param, typ)
+
+			// converted value is never a pointer
+			if value.IsValid() && typ.Kind() == reflect.Ptr {
+				ptr := reflect.New(typ.Elem())
+				if value.Type().AssignableTo(typ.Elem()) {
+					ptr.Elem().Set(value)
+					value = ptr
+				} else {
+					value = reflect.Value{}
+				}
+			}
 		}
 
 		if !value.IsValid() {
-- 
2.43.0


From ac15a51cbbfeb34ebc65af114f239430f0179d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:26 +0000
Subject: [PATCH 13/57] fix: Invoke must always call the function, whatever is
 cached for its result type

---
 inject/inject.go          | 8 +++++---
 inject/inject_provider.go | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/inject/inject.go b/inject/inject.go
index 8930c7d..d03925b 100755
--- a/inject/inject.go
+++ b/inject/inject.go
@@ -172,14 +172,16 @@ func (inj *injector) Invoke(prov interface{}) ([]reflect.Value, error) {
 	status := make(invokeStatus)
 
 	info := newProvider(Object{Value: prov})
+
+	// invoked function is not a provider, it has no name to be cached or
+	// to be found by
+	info.name = ""
+
 	out, err := info.invoke(inj, status)
 
 	if err != nil {
 		return nil, fmt.Errorf("provider invoke err: %v", err)
 	}
-
-	// remove exists cache of provider
-	delete(inj.caches, info.name)
 	return out, nil
 }
 
diff --git a/inject/inject_provider.go b/inject/inject_provider.go
index bf23987..4764ed1 100755
--- a/inject/inject_provider.go
+++ b/inject/inject_provider.go
@@ -177,7 +177,7 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 
 	// invoke provider function
 	out = p.pval.Call(in)
-	if p.ptyp.NumOut() > 0 {
+	if p.name != "" {
 		inj.caches[p.name] = out
 	}
 	return
-- 
2.43.0


From bcb473229f5c217197f4c30b5ac698bd74cfa12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 14/57] fix: Apply must report a value it can not assign

---
 inject/inject.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/inject/inject.go b/inject/inject.go
index d03925b..4cfe9d4 100755
--- a/inject/inject.go
+++ b/inject/inject.go
@@ -239,7 +239,9 @@ func (inj *injector) apply(ptrStruct interface{}, status invokeStatus, level int
 					return fmt.Errorf("value not found for type %s:%v", provName, field)
 				}
 
-				assignValue(out[0], field)
+				if err := assignValue(out[0], field); err != nil {
+					return err
+				}
 			}
 
 			continue
-- 
2.43.0


From 2bb514b515a50db878a56948ea07a877e6ddc2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:30 +0000
Subject: [PATCH 15/57] fix: dependency of other pointer level must not panic
 provider call

---
 inject/inject_provider.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/inject/inject_provider.go b/inject/inject_provider.go
index 4764ed1..afe5464 100755
--- a/inject/inject_provider.go
+++ b/inject/inject_provider.go
@@ -145,7 +145,7 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 	}
 
 	in := make([]reflect.Value, 0, len(p.deps))
-	for _, dep := range p.deps {
+	for i, dep := range p.deps {
 		prov := inj.get(dep)
 		if prov == nil {
 			err = fmt.Errorf("provider not found of dep <%s> by %v", dep, p.ptyp)
@@ -172,7 +172,11 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 			}
 		}
 
-		in = append(in, ot[0])
+		arg := reflect.New(p.ptyp.In(i)).Elem()
+		if err = assignValue(ot[0], arg); err != nil {
+			return
+		}
+		in = append(in, arg)
 	}
 
 	// invoke provider function
-- 
2.43.0


From b69902ac15c616e09b9586a86e75d4aa3e073db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 16/57] fix: detect cycle dependencies of providers which
 succeeded before

---
 inject/inject.go          |  4 ++++
 inject/inject_provider.go | 12 ++----------
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/inject/inject.go b/inject/inject.go
index 4cfe9d4..42938e7 100755
--- a/inject/inject.go
+++ b/inject/inject.go
@@ -57,6 +57,10 @@ func (m invokeStatus) set(name string) {
 	m[name] = false
 }
 
+func (m invokeStatus) unset(name string) {
+	delete(m, name)
+}
+
 type invokeCache map[string][]reflect.Value
 
 type injector struct {
diff --git a/inject/inject_provider.go b/inject/inject_provider.go
index afe5464..2938860 100755
--- a/inject/inject_provider.go
+++ b/inject/inject_provider.go
@@ -3,7 +3,6 @@ package inject
 import (
 	"fmt"
 	"reflect"
-	"sync/atomic"
 )
 
 type Provider interface{}
@@ -32,8 +31,6 @@ type providerInfo struct {
 
 	// reflect value of provider value
 	val reflect.Value
-
-	done uint32
 }
 
 func newProvider(obj Object) (info *providerInfo) {
@@ -130,14 +127,9 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 		return
 	}
 
-	defer func() {
-		if err == nil {
-			atomic.AddUint32(&p.done, 1)
-		}
-	}()
-
 	// on process
 	status.set(p.name)
+	defer status.unset(p.name)
 
 	if p.value != nil {
 		out = []reflect.Value{p.val}
@@ -153,7 +145,7 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 		}
 
 		// avoid cycle dependencies
-		if atomic.LoadUint32(&prov.done) == 0 && status.has(prov.name) {
+		if status.has(prov.name) {
 			err = fmt.Errorf("provider cycle dependencies of dep <%s> by %v", dep, p.ptyp)
 			return
 		}
-- 
2.43.0


From 67ae43653d477a22e8b06ad435a86c3bdcf5d3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 17/57] fix: providers of different unnamed types must not
 replace each other

---
 inject/inject_provider.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/inject/inject_provider.go b/inject/inject_provider.go
index 2938860..7c23e47 100755
--- a/inject/inject_provider.go
+++ b/inject/inject_provider.go
@@ -181,7 +181,12 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 
 // create unique name of type
 func createName(typ reflect.Type, name string) string {
-	return typ.PkgPath() + ":" + typ.Name() + ":" + name
+	typName := typ.Name()
+	if typName == "" {
+		// unnamed type like slice, map or func
+		typName = typ.String()
+	}
+	return typ.PkgPath() + ":" + typName + ":" + name
 }
 
 // reflect indirect of reflect.Value
-- 
2.43.0


From 9d37c9ac9c66622b9d4f03f41bea7e3a83f3c676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:58 +0000
Subject: [PATCH 18/57] fix: Worker.Wait must not miss the error of a task, nor
 hang on an unknown task

---
 utils/worker.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/utils/worker.go b/utils/worker.go
index dd68468..8f2e75a 100755
--- a/utils/worker.go
+++ b/utils/worker.go
@@ -34,8 +34,10 @@ func (w *Worker) RunTask(task interface{}) {
 
 func (w *Worker) Wait() (err error) {
 	w.wg.Wait()
+	w.rw.Lock()
 	err = w.err
 	w.err = nil
+	w.rw.Unlock()
 	return
 }
 
@@ -49,23 +51,26 @@ func (w *Worker) run(task interface{}) {
 	switch t := task.(type) {
 	case func():
 		t()
-		w.done()
+		w.done(nil)
 	case func() error:
-		err := t()
-		w.done()
-		if err != nil {
-			w.rw.Lock()
-			if !w.closed {
-				w.close()
-				w.err = err
-			}
-			w.rw.Unlock()
-		}
+		w.done(t())
+	default:
+		w.done(nil)
 	}
 }
 
-func (w *Worker) done() {
+func (w *Worker) done(err error) {
+	// give the slot back first, RunTask may wait for it with the read lock held
 	<-w.pools
+	if err != nil {
+		w.rw.Lock()
+		if !w.closed {
+			w.close()
+			w.err = err
+		}
+		w.rw.Unlock()
+	}
+	// the error must be recorded before Wait can return
 	w.wg.Done()
 }
 
-- 
2.43.0


From 34be2fe2a1672b3010e30c5fae9c90451422ef89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:00 +0000
Subject: [PATCH 19/57] fix: alphabets of 256 and more bytes must not panic in
 RandomCreateBytes

---
 utils/rand.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/rand.go b/utils/rand.go
index a1511ec..c02385f 100755
--- a/utils/rand.go
+++ b/utils/rand.go
@@ -26,7 +26,7 @@ func RandomCreateBytes(n int, alphabets ...byte) ([]byte, error) {
 		return nil, err
 	}
 	for i, b := range bytes {
-		bytes[i] = alphabets[b%byte(len(alphabets))]
+		bytes[i] = alphabets[int(b)%len(alphabets)]
 	}
 	return bytes, nil
 }
-- 
2.43.0


From 94113369284834c2eed5c3f3b857dd86b505fbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:02 +0000
Subject: [PATCH 20/57] fix: ToStr must print the value it was given for other
 types

---
 utils/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/converter.go b/utils/converter.go
index 4ff74b7..f30be53 100755
--- a/utils/converter.go
+++ b/utils/converter.go
@@ -177,7 +177,7 @@ func ToStr(value interface{}, args ...int) (s string) {
 			// TODO should use reflect rewrite
 			s = string(v)
 		} else {
-			s = fmt.Sprintf("%#v", v)
+			s = fmt.Sprintf("%#v", value)
 		}
 	}
 	return s
-- 
2.43.0


From a65c6de1a0015b5382e18ee5dcf4041074d9cce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:04 +0000
Subject: [PATCH 21/57] fix: Value.Uint must accept the whole range of uint

---
 utils/converter_value_to.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/converter_value_to.go b/utils/converter_value_to.go
index 48656f4..b0ea893 100755
--- a/utils/converter_value_to.go
+++ b/utils/converter_value_to.go
@@ -80,7 +80,7 @@ func (v *Value) Uint() (uint, error) {
 	if ret, ok := v.value.(uint); ok {
 		return ret, nil
 	}
-	value, err := strconv.ParseUint(v.String(), 10, 32)
+	value, err := strconv.ParseUint(v.String(), 10, 64)
 	return uint(value), err
 }
 
-- 
2.43.0


From 07eb85d37ff02a5fba3d16ed2892ddc17b125010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:05 +0000
Subject: [PATCH 22/57] fix: SliceValue.Set must append each part, not the
 whole value

---
 utils/helpers/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/helpers/config.go b/utils/helpers/config.go
index b3f5d84..b27681a 100755
--- a/utils/helpers/config.go
+++ b/utils/helpers/config.go
@@ -16,7 +16,7 @@ func (s *SliceValue) Set(v string) error {
 	for _, p := range strings.Split(v, ",") {
 		p = strings.TrimSpace(p)
 		if p != "" {
-			*s = append(*s, v)
+			*s = append(*s, p)
 		}
 	}
 	return nil
-- 
2.43.0


From 9f3ae3227012cf7e64420c626011143c71f817f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 23/57] fix: context values of different unnamed types must not
 share a key

---
 utils/context.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/utils/context.go b/utils/context.go
index f2f28b5..52d6400 100755
--- a/utils/context.go
+++ b/utils/context.go
@@ -70,6 +70,11 @@ func ctxValueToKey(value interface{}, extraNames ...string) key {
 	if len(extraNames) > 0 {
 		extraName = extraNames[0]
 	}
-	v := elm.PkgPath() + ":" + elm.Name() + ":" + extraName
+	name := elm.Name()
+	if name == "" {
+		// unnamed types are told apart by their whole description
+		name = elm.String()
+	}
+	v := elm.PkgPath() + ":" + name + ":" + extraName
 	return key(v)
 }
-- 
2.43.0


From 494d5d65899b535dc1475530895a6a1fa2659c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 24/57] fix: close the fallback file of the static filter

---
 static-serve/static.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/static-serve/static.go b/static-serve/static.go
index 5b58911..d97099c 100755
--- a/static-serve/static.go
+++ b/static-serve/static.go
@@ -138,6 +138,7 @@ func ServeFilter(prefix, directory string, opts ...StaticOption) interface{} {
 					err = er
 					return
 				}
+				defer f.Close()
 				err = nil
 			}
 			if err != nil {
-- 
2.43.0


From adcb409563c7a1a31d10d88a7594058fe153ad2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:35 +0000
Subject: [PATCH 25/57] fix: digits must not move between the value and the
 time of a signed value

---
 sessions/utils.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sessions/utils.go b/sessions/utils.go
index 2bf3d3b..ce9b2ae 100755
--- a/sessions/utils.go
+++ b/sessions/utils.go
@@ -41,18 +41,18 @@ func DecodeSecureValue(value string, secretKey string) (raw string, createdAt ti
 		return
 	}
 
-	vTime, _ := strconv.ParseInt(vCreated, 10, 64)
-	if vTime <= 0 {
+	vTime, err := strconv.ParseInt(vCreated, 10, 64)
+	if err != nil || vTime <= 0 {
 		return
 	}
 
-	vRaw, err := url.QueryUnescape(vRaw)
+	vRaw, err = url.QueryUnescape(vRaw)
 	if err != nil {
 		return
 	}
 
 	h := hmac.New(sha1.New, []byte(secretKey))
-	_, err = h.Write([]byte(vRaw + vCreated))
+	_, err = h.Write([]byte(vRaw + COOKIE_VALUE_SPLIT + vCreated))
 	if err != nil {
 		return
 	}
@@ -75,7 +75,7 @@ func EncodeSecureValue(raw string, secretKey string, createdAt time.Time) (value
 	timeValue := strconv.FormatInt(createdAt.UnixNano(), 10)
 
 	h := hmac.New(sha1.New, []byte(secretKey))
-	if _, err := h.Write([]byte(raw + timeValue)); err != nil {
+	if _, err := h.Write([]byte(raw + COOKIE_VALUE_SPLIT + timeValue)); err != nil {
 		return
 	}
 
-- 
2.43.0


From e458a84d0666d91cbd9062830a446ac5891e80b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:36 +0000
Subject: [PATCH 26/57] fix: HasRemember must not accept a value without both
 parts

---
 sessions/remember.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sessions/remember.go b/sessions/remember.go
index 490ae59..a0faef5 100755
--- a/sessions/remember.go
+++ b/sessions/remember.go
@@ -27,6 +27,7 @@ func (m *SessionManager) HasRemember(config *CookieConfig, r *http.Request) (psk
 
 	parts := strings.SplitN(value, COOKIE_VALUE_PARTS_SPLIT, 2)
 	if len(parts) != 2 {
+		ok = false
 		return
 	}
 
-- 
2.43.0


From 9e95f0ded0aec3f890f5299d7a17822ec0e8ccbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:37 +0000
Subject: [PATCH 27/57] fix: SessionManager.Regenerate must return the error of
 the store

---
 sessions/manager.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/sessions/manager.go b/sessions/manager.go
index 788bbec..a5aed33 100755
--- a/sessions/manager.go
+++ b/sessions/manager.go
@@ -112,13 +112,12 @@ func (m *SessionManager) Regenerate(config *CookieConfig, w http.ResponseWriter,
 	sid := CreateSid()
 	sess, err = m.provider.Regenerate(oldsid, sid)
 
-	switch err {
-	case ErrNotFoundSession:
+	if err == ErrNotFoundSession {
 		// 未找到时创建新的
 		sess, err = m.createSession(sid, params...)
-		if err != nil {
-			return
-		}
+	}
+	if err != nil {
+		return
 	}
 
 	createdAt = time.Now()
-- 
2.43.0


From 7b6cc2bf44e4e7a02a16fedc681cbe249aeadc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 28/57] fix: Regenerate must report that the old session could
 not be destroyed

---
 sessions/provider.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sessions/provider.go b/sessions/provider.go
index 6f3bd23..68902ac 100755
--- a/sessions/provider.go
+++ b/sessions/provider.go
@@ -183,7 +183,11 @@ func (p *sessProvide) Regenerate(old string, sid string) (sess SessionStore, err
 		return
 	}
 
-	p.Destroy(old)
+	// the old sid must not stay usable
+	err = p.Destroy(old)
+	if err != nil && err != caches.ErrMissedKey {
+		return
+	}
 	return p.Read(sid)
 }
 
-- 
2.43.0


From dba79f043d95b250f04690859779208da0ac120c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:39 +0000
Subject: [PATCH 29/57] fix: a session whose save failed must be saved by the
 next Flush

---
 sessions/provider.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sessions/provider.go b/sessions/provider.go
index 68902ac..2c8c586 100755
--- a/sessions/provider.go
+++ b/sessions/provider.go
@@ -113,8 +113,11 @@ func (m *sessData) Flush() error {
 		return nil
 	}
 
-	m.changed = false
-	return m.provider.save(m.store)
+	err := m.provider.save(m.store)
+	if err == nil {
+		m.changed = false
+	}
+	return err
 }
 
 // destory session values in store
-- 
2.43.0


From 6dc980ca30e25dcddedaa0838c37cfc9fa883ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 30/57] fix: redis Touch without expiry must not delete the key

---
 caches/provider_redis.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caches/provider_redis.go b/caches/provider_redis.go
index eff26b0..ecee366 100755
--- a/caches/provider_redis.go
+++ b/caches/provider_redis.go
@@ -63,7 +63,7 @@ func (p *redisProvide) Set(key string, val interface{}, params ...int) (err erro
 
 func (p *redisProvide) Touch(key string, params ...int) (err error) {
 	key = p.KeyPrefix + key
-	timeout := getTimeoutDur(params...)
+	timeout := getTimeoutDurEx(params...)
 
 	conn, err := p.Client.Get()
 	if err != nil {
-- 
2.43.0


From 6611805c3e6861c46efd0bcd15658ac234e46e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 31/57] fix: memcache timeouts of more than 30 days must not
 expire at once

---
 caches/provider_memcache.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/caches/provider_memcache.go b/caches/provider_memcache.go
index 07e6b7b..24956f3 100755
--- a/caches/provider_memcache.go
+++ b/caches/provider_memcache.go
@@ -1,6 +1,8 @@
 package caches
 
 import (
+	"time"
+
 	"github.com/bradfitz/gomemcache/memcache"
 	"github.com/wujiu2020/strip/utils"
 )
@@ -39,7 +41,7 @@ func (p *mcProvide) Set(key string, val interface{}, params ...int) (err error)
 	err = p.Client.Set(&memcache.Item{
 		Key:        key,
 		Value:      []byte(utils.ToStr(val)),
-		Expiration: int32(timeout.Seconds()),
+		Expiration: p.expiration(timeout),
 	})
 	return
 }
@@ -47,7 +49,7 @@ func (p *mcProvide) Set(key string, val interface{}, params ...int) (err error)
 func (p *mcProvide) Touch(key string, params ...int) (err error) {
 	key = p.KeyPrefix + key
 	timeout := getTimeoutDur(params...)
-	err = p.Client.Touch(key, int32(timeout.Seconds()))
+	err = p.Client.Touch(key, p.expiration(timeout))
 	err = p.handleError(err)
 	return
 }
@@ -99,6 +101,14 @@ func (p *mcProvide) GC() error {
 	return nil
 }
 
+// memcache takes more than 30 days as an absolute time
+func (p *mcProvide) expiration(timeout time.Duration) int32 {
+	if timeout > 30*24*time.Hour {
+		return int32(time.Now().Add(timeout).Unix())
+	}
+	return int32(timeout.Seconds())
+}
+
 func (p *mcProvide) handleError(err error) error {
 	if err == memcache.ErrCacheMiss {
 		return ErrMissedKey
-- 
2.43.0


From f38fa4fe44cd2517876c45d0e6f43d86867d02a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 32/57] fix: a number too large for the bound type must bind to
 zero, not wrap around

---
 params/binder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/params/binder.go b/params/binder.go
index 3c5581f..d7f790a 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -66,7 +66,7 @@ var (
 			if len(val) == 0 {
 				return reflect.Zero(typ)
 			}
-			intValue, err := strconv.ParseInt(val, 10, 64)
+			intValue, err := strconv.ParseInt(val, 10, typ.Bits())
 			if err != nil {
 				return reflect.Zero(typ)
 			}
@@ -81,7 +81,7 @@ var (
 			if len(val) == 0 {
 				return reflect.Zero(typ)
 			}
-			uintValue, err := strconv.ParseUint(val, 10, 64)
+			uintValue, err := strconv.ParseUint(val, 10, typ.Bits())
 			if err != nil {
 				return reflect.Zero(typ)
 			}
@@ -96,7 +96,7 @@ var (
 			if len(val) == 0 {
 				return reflect.Zero(typ)
 			}
-			floatValue, err := strconv.ParseFloat(val, 64)
+			floatValue, err := strconv.ParseFloat(val, typ.Bits())
 			if err != nil {
 				return reflect.Zero(typ)
 			}
-- 
2.43.0


From 2de918506b13b0ced837ca550a3d2eb9859e599a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:38 +0000
Subject: [PATCH 33/57] fix: a request must not choose the size of a bound
 slice without limit

---
 params/binder.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/params/binder.go b/params/binder.go
index d7f790a..b4e090d 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -45,6 +45,10 @@ func ValueBinder(f func(value string, typ reflect.Type) reflect.Value) func(*Par
 	}
 }
 
+// Elements with a larger index are ignored, the request decides how much
+// memory a slice takes otherwise.
+const MAX_SLICE_INDEX = 1<<16 - 1
+
 const (
 	DEFAULT_DATE_FORMAT            = "2006-01-02"
 	DEFAULT_DATETIME_FORMAT        = "2006-01-02 15:0"
@@ -231,7 +235,11 @@ func bindSlice(params *Params, name string, typ reflect.Type) reflect.Value {
 		index := -1
 		leftBracket, rightBracket := len(name), strings.Index(key[len(name):], "]")+len(name)
 		if rightBracket > leftBracket+1 {
-			index, _ = strconv.Atoi(key[leftBracket+1 : rightBracket])
+			var err error
+			index, err = strconv.Atoi(key[leftBracket+1 : rightBracket])
+			if err != nil || index > MAX_SLICE_INDEX {
+				return
+			}
 		}
 		subKeyIndex := rightBracket + 1
 
-- 
2.43.0


From 5befd337469cd0b61d6b40240f637fde9dd52f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 34/57] fix: minutes in the default datetime format

---
 params/binder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/params/binder.go b/params/binder.go
index b4e090d..70ad22c 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -51,7 +51,7 @@ const MAX_SLICE_INDEX = 1<<16 - 1
 
 const (
 	DEFAULT_DATE_FORMAT            = "2006-01-02"
-	DEFAULT_DATETIME_FORMAT        = "2006-01-02 15:0"
+	DEFAULT_DATETIME_FORMAT        = "2006-01-02 15:04"
 	DEFAULT_DATETIME_FORMAT_SECOND = "2006-01-02 15:04:05"
 )
 
-- 
2.43.0


From 53da301c7d9295059718e370d4dc3b0e0f1f69b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:40 +0000
Subject: [PATCH 35/57] fix: a key naming a field behind a nil embedded pointer
 must not panic

---
 params/binder.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/params/binder.go b/params/binder.go
index 70ad22c..8ce879c 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -309,6 +309,25 @@ func nextKey(key string) string {
 	return key[:fieldLen]
 }
 
+// fieldByName is FieldByName, but a field behind a nil embedded pointer is
+// an invalid value instead of a panic.
+func fieldByName(val reflect.Value, name string) reflect.Value {
+	field, ok := val.Type().FieldByName(name)
+	if !ok {
+		return reflect.Value{}
+	}
+	for _, i := range field.Index {
+		if val.Kind() == reflect.Ptr {
+			if val.IsNil() {
+				return reflect.Value{}
+			}
+			val = val.Elem()
+		}
+		val = val.Field(i)
+	}
+	return val
+}
+
 func bindStruct(params *Params, name string, typ reflect.Type) reflect.Value {
 	result := reflect.New(typ).Elem()
 	fieldValues := make(map[string]reflect.Value)
@@ -325,7 +344,7 @@ func bindStruct(params *Params, name string, typ reflect.Type) reflect.Value {
 
 		if _, ok := fieldValues[fieldName]; !ok {
 			// Time to bind this field.  Get it and make sure we can set it.
-			fieldValue := result.FieldByName(fieldName)
+			fieldValue := fieldByName(result, fieldName)
 			if !fieldValue.IsValid() {
 				continue
 			}
-- 
2.43.0


From b76f78d6912f69c49701ea0e11537aa76d1ce526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 36/57] fix: query values must not appear twice when a form is
 posted

---
 params/params.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/params/params.go b/params/params.go
index 9d98e45..134acc1 100755
--- a/params/params.go
+++ b/params/params.go
@@ -60,7 +60,7 @@ func ParseParams(params *Params, maxMemory int64) error {
 		if err := req.ParseForm(); err != nil {
 			return err
 		} else {
-			params.Form = req.Form
+			params.Form = req.PostForm
 		}
 
 	case "multipart/form-data":
-- 
2.43.0


From 2420cc9951e9a256633ab5b03a0e4938caaac968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:43 +0000
Subject: [PATCH 37/57] fix: concurrent requests must not write the max memory
 of the params parser

---
 params/params.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/params/params.go b/params/params.go
index 134acc1..50d2178 100755
--- a/params/params.go
+++ b/params/params.go
@@ -243,8 +243,6 @@ func (p *Params) calcValues() url.Values {
 }
 
 func ParamsParser() interface{} {
-	var maxMemory int64
-
 	return func(req *http.Request, ctx strip.Context, log strip.Logger, config *strip.Config) *Params {
 		params := new(Params)
 		params.req = req
@@ -257,11 +255,10 @@ func ParamsParser() interface{} {
 			params.Route = *routeInfo
 		}
 
+		var maxMemory int64
+		config.Bind(&maxMemory, "max_memory")
 		if maxMemory == 0 {
-			config.Bind(&maxMemory, "max_memory")
-			if maxMemory == 0 {
-				maxMemory = DefaultMaxMemory
-			}
+			maxMemory = DefaultMaxMemory
 		}
 
 		err := ParseParams(params, maxMemory)
-- 
2.43.0


From 0bad034f6682b4374680ed06b15026710cad7ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:44 +0000
Subject: [PATCH 38/57] fix: an embedded pointer to an unexported struct must
 not panic

---
 params/params.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/params/params.go b/params/params.go
index 50d2178..8df9ee1 100755
--- a/params/params.go
+++ b/params/params.go
@@ -169,6 +169,9 @@ func (p *Params) bindValuesToStruct(elm reflect.Value, pointerMap map[uintptr]bo
 
 				var newField reflect.Value
 				if field.IsNil() {
+					if !field.CanSet() {
+						continue
+					}
 					newField = reflect.New(ftyp.Type.Elem())
 				} else {
 					newField = field
@@ -184,7 +187,9 @@ func (p *Params) bindValuesToStruct(elm reflect.Value, pointerMap map[uintptr]bo
 					pointerMap[pointer] = true
 				}
 				if ok := p.bindValuesToStruct(inf, pointerMap); ok {
-					field.Set(newField)
+					if field.CanSet() {
+						field.Set(newField)
+					}
 				}
 
 			} else if field.Kind() == reflect.Struct {
-- 
2.43.0


From 4b683785a53b9f65723dfd0e35e82246fac59d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:45 +0000
Subject: [PATCH 39/57] fix: RawBody must answer with its status whatever its
 body is

---
 utils/apires/raw.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/utils/apires/raw.go b/utils/apires/raw.go
index eda8301..fc9b5a1 100755
--- a/utils/apires/raw.go
+++ b/utils/apires/raw.go
@@ -13,33 +13,33 @@ type RawBody struct {
 }
 
 func (r *RawBody) Write(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
-	if r.Status == 0 {
-		r.Status = http.StatusOK
+	status := r.Status
+	if status == 0 {
+		status = http.StatusOK
 	}
 
-	if r.Status == http.StatusNoContent {
-		rw.WriteHeader(r.Status)
-		return
-	}
-
-	if r.Body == nil {
+	if status == http.StatusNoContent || r.Body == nil {
+		rw.WriteHeader(status)
 		return
 	}
 
 	var err error
 	switch v := r.Body.(type) {
 	case string:
+		rw.WriteHeader(status)
 		_, err = rw.Write([]byte(v))
 	case []byte:
+		rw.WriteHeader(status)
 		_, err = rw.Write(v)
 	case io.Reader:
+		rw.WriteHeader(status)
 		buf := make([]byte, 4*1024)
 		_, err = io.CopyBuffer(rw, v, buf)
 		if c, ok := r.Body.(io.Closer); ok {
 			c.Close()
 		}
 	default:
-		err = writeJsonBody(r.Status, r.Body, ctx, rw, req)
+		err = writeJsonBody(status, r.Body, ctx, rw, req)
 	}
 	if err != nil {
 		var logger strip.Logger
-- 
2.43.0


From 322688ec7b55caf980c755735a59ab3e3c01f359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:46 +0000
Subject: [PATCH 40/57] fix: writing a shared ResBody must not change it

---
 utils/apires/res.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/utils/apires/res.go b/utils/apires/res.go
index c70377f..88dcb66 100755
--- a/utils/apires/res.go
+++ b/utils/apires/res.go
@@ -15,19 +15,20 @@ type ResBody struct {
 }
 
 func (r *ResBody) Write(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
-	if r.Status == 0 {
-		r.Status = http.StatusOK
+	status, body := r.Status, r.Body
+	if status == 0 {
+		status = http.StatusOK
 	}
-	if r.Body == nil {
-		r.Body = struct{}{}
+	if body == nil {
+		body = struct{}{}
 	}
 
-	if r.Status == http.StatusNoContent {
-		rw.WriteHeader(r.Status)
+	if status == http.StatusNoContent {
+		rw.WriteHeader(status)
 		return
 	}
 
-	if err := writeJsonBody(r.Status, r.Body, ctx, rw, req); err != nil {
+	if err := writeJsonBody(status, body, ctx, rw, req); err != nil {
 		var logger strip.Logger
 		ctx.Find(&logger, "")
 		logger.Warn("response write failed:", err)
-- 
2.43.0


From 6e33cdcd40a0607181fa14b25f5ac6a8003e9cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 41/57] fix: a body that can not be encoded must not be
 answered with a success status

---
 utils/apires/res.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/apires/res.go b/utils/apires/res.go
index 88dcb66..eefba0f 100755
--- a/utils/apires/res.go
+++ b/utils/apires/res.go
@@ -59,6 +59,9 @@ func writeJsonBody(status int, body interface{}, ctx strip.Context, rw http.Resp
 		resBody, err = json.Marshal(body)
 	}
 
+	if err != nil {
+		status = http.StatusInternalServerError
+	}
 	rw.Header().Set("Content-Type", jsonContentType)
 	rw.WriteHeader(status)
 
-- 
2.43.0


From 0b1d3ffe0d70db0457ce6525c43baf55f87b2392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 42/57] fix: responses written after the gzip filter returned
 were cut off

---
 gzip/gzip.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gzip/gzip.go b/gzip/gzip.go
index 05bf01e..413491c 100755
--- a/gzip/gzip.go
+++ b/gzip/gzip.go
@@ -32,7 +32,15 @@ func All() interface{} {
 		headers.Set(HeaderVary, HeaderAcceptEncoding)
 
 		gzw := &gzipResponseWriter{ResponseWriter: rw.(strip.ResponseWriter)}
-		defer gzw.close()
+		defer func() {
+			gzw.close()
+			if gzw.gzw == nil {
+				// nothing was compressed, and what is written from here on (a
+				// panic page, a result) would never be completed by close
+				headers.Del(HeaderContentEncoding)
+				ctx.ProvideAs(rw, (*http.ResponseWriter)(nil))
+			}
+		}()
 		ctx.ProvideAs(gzw, (*http.ResponseWriter)(nil))
 
 		ctx.Next()
-- 
2.43.0


From a628d5fc561f4ec5eb6168fe46a7fa363cc4a4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 43/57] fix: Flush did not send compressed data held back

---
 gzip/gzip.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gzip/gzip.go b/gzip/gzip.go
index 413491c..2d788d9 100755
--- a/gzip/gzip.go
+++ b/gzip/gzip.go
@@ -69,6 +69,17 @@ func (g *gzipResponseWriter) Write(p []byte) (int, error) {
 	return g.gzw.Write(p)
 }
 
+func (g *gzipResponseWriter) Flush() {
+	g.one.Do(func() {
+		g.gzw = gzip.NewWriter(g.ResponseWriter)
+		g.Header().Del(HeaderContentLength)
+	})
+
+	// what is still held back by the compression has to be sent as well
+	g.gzw.Flush()
+	g.ResponseWriter.Flush()
+}
+
 func (g *gzipResponseWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
 	hijacker, ok := g.ResponseWriter.(http.Hijacker)
 	if !ok {
-- 
2.43.0


From 55ca49b55c5cc0031b59113fe46272c0344098de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:24 +0000
Subject: [PATCH 44/57] fix: redirect of a directory could lead to another host

---
 static-serve/static.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/static-serve/static.go b/static-serve/static.go
index d97099c..621d927 100755
--- a/static-serve/static.go
+++ b/static-serve/static.go
@@ -106,8 +106,9 @@ func ServeFilter(prefix, directory string, opts ...StaticOption) interface{} {
 		if fi.IsDir() {
 			// redirect if missing trailing slash
 			if !strings.HasSuffix(req.URL.Path, "/") {
+				// more than one leading slash would make it another host
 				dest := url.URL{
-					Path:     req.URL.Path + "/",
+					Path:     "/" + strings.TrimLeft(req.URL.Path, "/") + "/",
 					RawQuery: req.URL.RawQuery,
 					Fragment: req.URL.Fragment,
 				}
-- 
2.43.0


From 76b39fc0d9e2afaec46bb58abcbdab429a66a90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:24 +0000
Subject: [PATCH 45/57] fix: fallback file got the type of the missing file

---
 static-serve/static.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/static-serve/static.go b/static-serve/static.go
index 621d927..87622e8 100755
--- a/static-serve/static.go
+++ b/static-serve/static.go
@@ -141,6 +141,9 @@ func ServeFilter(prefix, directory string, opts ...StaticOption) interface{} {
 				}
 				defer f.Close()
 				err = nil
+
+				// the type is that of the file served, not of the one asked for
+				file = opt.TryFilesThen
 			}
 			if err != nil {
 				return
-- 
2.43.0


From 92fc414c7b3446838ece5a0170e65d84a8a3338d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:30 +0000
Subject: [PATCH 46/57] fix: the error of a task that ends after Close must not
 be lost

---
 utils/worker.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/worker.go b/utils/worker.go
index 8f2e75a..c01f013 100755
--- a/utils/worker.go
+++ b/utils/worker.go
@@ -64,8 +64,9 @@ func (w *Worker) done(err error) {
 	<-w.pools
 	if err != nil {
 		w.rw.Lock()
-		if !w.closed {
-			w.close()
+		w.close()
+		if w.err == nil {
+			// also for a task that was still running when Close was called
 			w.err = err
 		}
 		w.rw.Unlock()
-- 
2.43.0


From 254de75b4911b330524dc6a95e9113f20e3b6de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:53 +0000
Subject: [PATCH 47/57] fix: uploaded files must be there while the request is
 handled

The files of a multipart form that do not fit into memory were removed
when the params were provided, before the handler could open them. They
are removed when the request is done.
---
 app.go           | 11 +++++++++++
 params/params.go | 22 +---------------------
 2 files changed, 12 insertions(+), 21 deletions(-)

diff --git a/app.go b/app.go
index 1ba8b87..ea8824e 100755
--- a/app.go
+++ b/app.go
@@ -117,6 +117,17 @@ func (s *Strip) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 	ctx.Provide(req)
 	ctx.ProvideAs(trw, (*http.ResponseWriter)(nil))
 
+	// uploads are kept until the request is done, the server
+	// does not know the form of a copied request
+	defer func() {
+		var req *http.Request
+		if err := ctx.Find(&req, ""); err == nil && req != nil && req.MultipartForm != nil {
+			if err := req.MultipartForm.RemoveAll(); err != nil {
+				s.logger.Notice("error removing temporary files:", err)
+			}
+		}
+	}()
+
 	ctx.(*context).run()
 
 	// flush header if have not written
diff --git a/params/params.go b/params/params.go
index 8df9ee1..d95cb2b 100755
--- a/params/params.go
+++ b/params/params.go
@@ -8,7 +8,6 @@ import (
 	"mime/multipart"
 	"net/http"
 	"net/url"
-	"os"
 	"reflect"
 	"strings"
 
@@ -34,8 +33,7 @@ type Params struct {
 	Query url.Values // Parameters from the query string, e.g. /index?limit=10
 	Form  url.Values // Parameters from the request body.
 
-	Files    map[string][]*multipart.FileHeader // Files uploaded in a multipart form
-	tmpFiles []*os.File                         // Temp files used during the request.
+	Files map[string][]*multipart.FileHeader // Files uploaded in a multipart form
 
 	req *http.Request
 	log strip.Logger
@@ -271,24 +269,6 @@ func ParamsParser() interface{} {
 			log.Notice("parse params error", err)
 		}
 
-		// Clean up from the request.
-		defer func() {
-			// Delete temp files.
-			if req.MultipartForm != nil {
-				err := req.MultipartForm.RemoveAll()
-				if err != nil {
-					log.Notice("error removing temporary files:", err)
-				}
-			}
-
-			for _, tmpFile := range params.tmpFiles {
-				err := os.Remove(tmpFile.Name())
-				if err != nil {
-					log.Notice("could not remove upload temp file:", err)
-				}
-			}
-		}()
-
 		return params
 	}
 }
-- 
2.43.0


From a12fce079ea664da7da35cec809dab36b5bc2be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:10 +0000
Subject: [PATCH 48/57] fix: byte arrays and empty values must be converted to
 text as they are

ToStr panicked for byte arrays and gave "[]" for empty bytes, the address
for a pointer to an empty text.
---
 app_util.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/app_util.go b/app_util.go
index f4d57cd..9e86e2a 100755
--- a/app_util.go
+++ b/app_util.go
@@ -168,11 +168,15 @@ func ToStr(value interface{}) (s string) {
 	case reflect.String:
 		s = val.String()
 	case reflect.Array, reflect.Slice:
-		if val.Type().Elem().Kind() == reflect.Uint8 {
-			s = string(val.Bytes())
+		if val.Type().Elem().Kind() != reflect.Uint8 {
+			return fmt.Sprint(value)
 		}
-	}
-	if s == "" {
+		b := make([]byte, val.Len())
+		for i := range b {
+			b[i] = byte(val.Index(i).Uint())
+		}
+		s = string(b)
+	default:
 		s = fmt.Sprint(value)
 	}
 	return s
-- 
2.43.0


From 8aa53bf7f14869a4ffaa0d18007ff8f00c03f814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:12 +0000
Subject: [PATCH 49/57] fix: ToInt64 must report a number that does not fit

---
 utils/converter.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/utils/converter.go b/utils/converter.go
index f30be53..f9cc728 100755
--- a/utils/converter.go
+++ b/utils/converter.go
@@ -4,6 +4,7 @@ import (
 	"crypto/md5"
 	"encoding/hex"
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 )
@@ -190,7 +191,12 @@ func ToInt64(value interface{}) (d int64, err error) {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		d = val.Int()
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		d = int64(val.Uint())
+		u := val.Uint()
+		if u > math.MaxInt64 {
+			err = fmt.Errorf("ToInt64 value %d is too large", u)
+			return
+		}
+		d = int64(u)
 	default:
 		err = fmt.Errorf("ToInt64 need numeric not `%T`", value)
 	}
-- 
2.43.0


From 61ae5e4d6a7c986a2e7540c9b69e487421f8f5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:26 +0000
Subject: [PATCH 50/57] fix: Config.Bind must not panic on a pointer to a
 pointer

---
 config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config.go b/config.go
index 4a147f6..3680f22 100755
--- a/config.go
+++ b/config.go
@@ -87,7 +87,7 @@ func (c *Config) Bind(ptr interface{}, name string) {
 		elm := val.Elem()
 		val = convertStringAsType(value, elm.Type())
 		if elm.CanSet() && val.IsValid() {
-			if elm.Kind() == reflect.Ptr {
+			for elm.Kind() == reflect.Ptr {
 				elm.Set(reflect.New(elm.Type().Elem()))
 				elm = elm.Elem()
 			}
-- 
2.43.0


From 869f953e52f9ddaeb1c6255008c800de7ef65e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:11 +0000
Subject: [PATCH 51/57] fix: a bound map must not panic on a name without
 values

---
 params/binder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/params/binder.go b/params/binder.go
index 8ce879c..ff6a269 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -379,6 +379,10 @@ func bindMap(params *Params, name string, typ reflect.Type) reflect.Value {
 			if !strings.HasPrefix(paramName, name+"[") || paramName[len(paramName)-1] != ']' {
 				continue
 			}
+			// a name may come without any value
+			if len(values) == 0 {
+				continue
+			}
 
 			key := paramName[len(name)+1 : len(paramName)-1]
 			result.SetMapIndex(BindValue(key, keyType), BindValue(values[0], valueType))
-- 
2.43.0


From 33f4fe1d3b28e95d4755a836c388f650ad87ff73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:42 +0000
Subject: [PATCH 52/57] fix: values of fields deep in an embedded pointer must
 not be lost

---
 params/params.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/params/params.go b/params/params.go
index d95cb2b..5917b82 100755
--- a/params/params.go
+++ b/params/params.go
@@ -185,6 +185,7 @@ func (p *Params) bindValuesToStruct(elm reflect.Value, pointerMap map[uintptr]bo
 					pointerMap[pointer] = true
 				}
 				if ok := p.bindValuesToStruct(inf, pointerMap); ok {
+					exits = true
 					if field.CanSet() {
 						field.Set(newField)
 					}
@@ -192,16 +193,16 @@ func (p *Params) bindValuesToStruct(elm reflect.Value, pointerMap map[uintptr]bo
 
 			} else if field.Kind() == reflect.Struct {
 				inf = field
-				p.bindValuesToStruct(inf, pointerMap)
+				if ok := p.bindValuesToStruct(inf, pointerMap); ok {
+					exits = true
+				}
 			} else {
 				continue
 			}
 
 		} else {
 			if !exits {
-				if vals, ok := p.Values[name]; ok && len(vals) > 0 {
-					exits = true
-				}
+				exits = p.hasValue(name)
 			}
 			paramValue := Bind(p, name, field.Type())
 			if paramValue.Type().ConvertibleTo(field.Type()) {
@@ -212,6 +213,17 @@ func (p *Params) bindValuesToStruct(elm reflect.Value, pointerMap map[uintptr]bo
 	return
 }
 
+// hasValue reports whether there is a value for name, for one of its elements
+// or for one of its fields.
+func (p *Params) hasValue(name string) bool {
+	for key, vals := range p.Values {
+		if len(vals) > 0 && (key == name || strings.HasPrefix(key, name+"[") || strings.HasPrefix(key, name+".")) {
+			return true
+		}
+	}
+	return false
+}
+
 // calcValues returns a unified view of the component param maps.
 func (p *Params) calcValues() url.Values {
 	numParams := len(p.Query) + len(p.Route.Values) + len(p.Form)
-- 
2.43.0


From 4cd6bd0d714cde81c1b5d6d8dc3240cb334144e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:43 +0000
Subject: [PATCH 53/57] fix: a param tag that only has options must keep the
 name of the field

---
 params/params.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/params/params.go b/params/params.go
index 5917b82..d68dda0 100755
--- a/params/params.go
+++ b/params/params.go
@@ -147,13 +147,12 @@ func (p *Params) bindValuesToStruct(elm reflect.Value, pointerMap map[uintptr]bo
 		}
 
 		name := tag
-		if name == "" {
-			name = ftyp.Name
-		}
-
 		if idx := strings.Index(tag, ","); idx != -1 {
 			name = tag[:idx]
 		}
+		if name == "" {
+			name = ftyp.Name
+		}
 
 		// struct recursion
 		if ftyp.Anonymous {
-- 
2.43.0


From 1ceed0dd53488609052e18f46216846867ce1efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:43 +0000
Subject: [PATCH 54/57] fix: large numbers of a map parameter must not become
 zero

---
 params/binder.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/params/binder.go b/params/binder.go
index ff6a269..75c81c2 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -370,7 +370,10 @@ func bindMap(params *Params, name string, typ reflect.Type) reflect.Value {
 	)
 	if v := params.Values.Get(name); v != "" {
 		raw := make(map[string]interface{})
-		_ = json.Unmarshal([]byte(v), &raw)
+		// numbers as they are written, 1000000 is 1e+06 otherwise
+		dec := json.NewDecoder(strings.NewReader(v))
+		dec.UseNumber()
+		_ = dec.Decode(&raw)
 		for key, value := range raw {
 			result.SetMapIndex(BindValue(key, keyType), BindValue(fmt.Sprint(value), valueType))
 		}
-- 
2.43.0


From f5e1aab936d30c74e88e692919ae9b7daa1866f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:44 +0000
Subject: [PATCH 55/57] fix: a malformed body must not hide the values of query
 and route

---
 params/params.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/params/params.go b/params/params.go
index d68dda0..bd31194 100755
--- a/params/params.go
+++ b/params/params.go
@@ -44,6 +44,11 @@ func ParseParams(params *Params, maxMemory int64) error {
 
 	params.Query = req.URL.Query()
 
+	// what the query and the route carry does not depend on the body
+	defer func() {
+		params.Values = params.calcValues()
+	}()
+
 	contentType := req.Header.Get("Content-Type")
 	if contentType == "" {
 		contentType = "text/html"
@@ -74,7 +79,6 @@ func ParseParams(params *Params, maxMemory int64) error {
 		}
 	}
 
-	params.Values = params.calcValues()
 	return nil
 }
 
-- 
2.43.0


From 78799e7ad5f12f180d8ec680aa110f9a7e6b9e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:46 +0000
Subject: [PATCH 56/57] fix: binding a struct whose embedded pointers lead back
 to it must end

---
 params/params.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/params/params.go b/params/params.go
index bd31194..b377378 100755
--- a/params/params.go
+++ b/params/params.go
@@ -131,12 +131,15 @@ func (p *Params) BindValuesToStruct(dest interface{}) {
 	if val.Kind() != reflect.Ptr && elm.Kind() != reflect.Struct {
 		panic("need ptr of struct")
 	}
-	p.bindValuesToStruct(elm, pointerMap)
+	p.bindValuesToStruct(elm, pointerMap, make(map[reflect.Type]bool))
 }
 
-func (p *Params) bindValuesToStruct(elm reflect.Value, pointerMap map[uintptr]bool) (exits bool) {
+func (p *Params) bindValuesToStruct(elm reflect.Value, pointerMap map[uintptr]bool, typeMap map[reflect.Type]bool) (exits bool) {
 	typ := elm.Type()
 
+	// types being bound, a nil pointer to one of them must not be followed
+	typeMap[typ] = true
+
 	for i := 0; i < elm.NumField(); i++ {
 		field := elm.Field(i)
 		ftyp := typ.Field(i)
@@ -170,12 +173,14 @@ func (p *Params) bindValuesToStruct(elm reflect.Value, pointerMap map[uintptr]bo
 
 				var newField reflect.Value
 				if field.IsNil() {
-					if !field.CanSet() {
+					if !field.CanSet() || typeMap[ftyp.Type.Elem()] {
 						continue
 					}
 					newField = reflect.New(ftyp.Type.Elem())
 				} else {
 					newField = field
+					// save pointer
+					pointerMap[pointer] = true
 				}
 
 				inf = reflect.Indirect(newField)
@@ -183,11 +188,7 @@ func (p *Params) bindValuesToStruct(elm reflect.Value, pointerMap map[uintptr]bo
 					continue
 				}
 
-				if pointer > 0 {
-					// save pointer
-					pointerMap[pointer] = true
-				}
-				if ok := p.bindValuesToStruct(inf, pointerMap); ok {
+				if ok := p.bindValuesToStruct(inf, pointerMap, typeMap); ok {
 					exits = true
 					if field.CanSet() {
 						field.Set(newField)
@@ -196,7 +197,7 @@ func (p *Params) bindValuesToStruct(elm reflect.Value, pointerMap map[uintptr]bo
 
 			} else if field.Kind() == reflect.Struct {
 				inf = field
-				if ok := p.bindValuesToStruct(inf, pointerMap); ok {
+				if ok := p.bindValuesToStruct(inf, pointerMap, typeMap); ok {
 					exits = true
 				}
 			} else {
@@ -213,6 +214,7 @@ func (p *Params) bindValuesToStruct(elm reflect.Value, pointerMap map[uintptr]bo
 			}
 		}
 	}
+	delete(typeMap, typ)
 	return
 }
 
-- 
2.43.0


From 9d95141d8877fec5290177c6430d6f98900639ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:46 +0000
Subject: [PATCH 57/57] fix: NumberEncode must end with an alphabet of one byte
 and not panic on an empty one

---
 utils/rand.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/rand.go b/utils/rand.go
index c02385f..d052f8a 100755
--- a/utils/rand.go
+++ b/utils/rand.go
@@ -55,7 +55,8 @@ func DefaultNumberEncode(number string) string {
 func NumberEncode(number string, alphabet []byte) string {
 	token := make([]byte, 0, 12)
 	x, ok := new(big.Int).SetString(number, 10)
-	if !ok {
+	// dividing by less than two never gets to zero
+	if !ok || len(alphabet) < 2 {
 		return ""
 	}
 	y := big.NewInt(int64(len(alphabet)))
-- 
2.43.0


W='utils/worker.go'
RT="""	w.rw.RLock()
	if w.closed {
		w.rw.RUnlock()
		return
	}
	w.wg.Add(1)
	w.pools <- true
	w.rw.RUnlock()

	go w.run(task)"""
DN="""	<-w.pools
	if err != nil {
		w.rw.Lock()
		w.close()
		if w.err == nil {
			// also for a task that was still running when Close was called
			w.err = err
		}
		w.rw.Unlock()
	}
	// the error must be recorded before Wait can return
	w.wg.Done()"""
V=[
('bug','C22','done before error',[(W,DN,"""	<-w.pools
	w.wg.Done()
	if err != nil {
		w.rw.Lock()
		if !w.closed {
			w.close()
			w.err = err
		}
		w.rw.Unlock()
	}""")]),
('bug','C22','slot after lock',[(W,DN,DN.replace("	<-w.pools\n","").replace("	w.wg.Done()","	<-w.pools\n	w.wg.Done()"))]),
('bug','C22','unknown task hangs',[(W,"	default:\n		w.done(nil)\n","")]),
('bug','C22','unlock before slot',[(W,RT,RT.replace("	w.wg.Add(1)\n	w.pools <- true\n	w.rw.RUnlock()\n","	w.wg.Add(1)\n	w.rw.RUnlock()\n	w.pools <- true\n"))]),
('bug','C22','add in goroutine',[(W,RT,RT.replace("	w.wg.Add(1)\n","").replace("	go w.run(task)","	go func() {\n		w.wg.Add(1)\n		w.run(task)\n	}()"))]),
('bug','C22','closed read without lock',[(W,RT,RT.replace("	w.rw.RLock()\n	if w.closed {\n		w.rw.RUnlock()\n		return\n	}\n","	if w.closed {\n		return\n	}\n	w.rw.RLock()\n"))]),
('bug','C22','last error wins',[(W,"		w.close()\n		if w.err == nil {\n			// also for a task that was still running when Close was called\n			w.err = err\n		}","		w.close()\n		w.err = err")]),
('bug','C22','error does not close',[(W,"		w.close()\n		if w.err == nil {","		if w.err == nil {")]),
('bug','C22','error kept after wait',[(W,"	w.err = nil\n","")]),
('bug','C22','wait clears before',[(W,"	err = w.err\n	w.err = nil\n","	w.err = nil\n	err = w.err\n")]),
('bug','C22','wait under lock',[(W,"	w.wg.Wait()\n	w.rw.Lock()\n","	w.rw.Lock()\n	w.wg.Wait()\n")]),
('bug','C22','wait reads first',[(W,"	w.wg.Wait()\n	w.rw.Lock()\n	err = w.err\n	w.err = nil\n	w.rw.Unlock()\n	return","	w.rw.Lock()\n	err = w.err\n	w.err = nil\n	w.rw.Unlock()\n	w.wg.Wait()\n	return")]),
('bug','C22','close twice',[(W,"	if w.closed {\n		return\n	}\n	w.closed = true","	w.closed = true")]),
('bug','C22','close under rlock',[(W,"	w.rw.Lock()\n	w.close()\n	w.rw.Unlock()","	w.rw.RLock()\n	w.close()\n	w.rw.RUnlock()")]),
('bug','C22','lock leaked',[(W,"	if w.closed {\n		w.rw.RUnlock()\n		return\n	}\n	w.wg","	if w.closed {\n		return\n	}\n	w.wg")]),
('bug','C22','limit plus one',[(W,"make(chan bool, nums)","make(chan bool, nums+1)")]),
('bug','C22','wait does not reopen... reopens',[(W,"	w.err = nil\n	w.rw.Unlock()","	w.err = nil\n	w.closed = false\n	w.rw.Unlock()")]),
('bug','C22','slot not given back for plain',[(W,"		t()\n		w.done(nil)","		t()\n		w.wg.Done()")]),
('bug','C22','slot given back before task',[(W,"		t()\n		w.done(nil)","		w.done(nil)\n		t()")]),
('bug','C22','error ignored when closed flag raced',[(W,"		w.done(t())","		if err := t(); err != nil {\n			w.done(nil)\n		} else {\n			w.done(err)\n		}")]),
('bug','C22','runs twice',[(W,"		t()\n		w.done(nil)","		t()\n		go t()\n		w.done(nil)")]),
('bug','C22','inline when closed',[(W,"	if w.closed {\n		w.rw.RUnlock()\n		return","	if w.closed {\n		w.rw.RUnlock()\n		w.wg.Add(1)\n		go w.run(task)\n		return")]),
('bug','C22','drops when full',[(W,"	w.pools <- true\n","	select {\n	case w.pools <- true:\n	default:\n		w.wg.Done()\n		w.rw.RUnlock()\n		return\n	}\n")]),
('bug','C22','unchecked close between',[(W,"		w.rw.Lock()\n		w.close()\n		if w.err == nil {\n			// also for a task that was still running when Close was called\n			w.err = err\n		}\n		w.rw.Unlock()","		w.rw.RLock()\n		closed := w.closed\n		w.rw.RUnlock()\n		if !closed {\n			w.rw.Lock()\n			w.close()\n			w.err = err\n			w.rw.Unlock()\n		}")]),
('ref','C22','deferred unlock',[(W,"	w.rw.Lock()\n	w.close()\n	w.rw.Unlock()","	w.rw.Lock()\n	defer w.rw.Unlock()\n	w.close()")]),
('ref','C22','acquire helper',[(W,RT,"""	if !w.acquire() {
		return
	}
	go w.run(task)"""),(W,"func (w *Worker) close() {","""func (w *Worker) acquire() bool {
	w.rw.RLock()
	defer w.rw.RUnlock()
	if w.closed {
		return false
	}
	w.wg.Add(1)
	w.pools <- true
	return true
}

func (w *Worker) close() {""")]),
('ref','C22','deferred done',[(W,DN,"""	defer w.wg.Done()
	<-w.pools
	if err == nil {
		return
	}
	w.rw.Lock()
	defer w.rw.Unlock()
	defer w.close()
	if w.err != nil {
		return
	}
	w.err = err""")]),
('bug','C22','error lost after close',[(W,DN,DN.replace("if w.err == nil {","if !w.closed {").replace("		w.close()\n",""))]),
('bug','C22','error only if open',[(W,"		if w.err == nil {\n","		if w.err == nil && len(w.pools) > 0 {\n")]),
('ref','C22','run by value',[(W,"""	switch t := task.(type) {
	case func():
		t()
		w.done(nil)
	case func() error:
		w.done(t())
	default:
		w.done(nil)
	}""","""	var err error
	switch t := task.(type) {
	case func():
		t()
	case func() error:
		err = t()
	}
	w.done(err)""")]),
('ref','C22','closure goroutine',[(W,"	go w.run(task)","	go func() {\n		w.run(task)\n	}()")]),
('ref','C22','if asserts',[(W,"""	switch t := task.(type) {
	case func():
		t()
		w.done(nil)
	case func() error:
		w.done(t())
	default:
		w.done(nil)
	}""","""	if f, ok := task.(func()); ok {
		f()
		w.done(nil)
		return
	}
	if f, ok := task.(func() error); ok {
		err := f()
		w.done(err)
		return
	}
	w.done(nil)""")]),
('ref','C22','literal',[(W,"	wk := new(Worker)\n	wk.pools = make(chan bool, nums)\n	return wk","	return &Worker{pools: make(chan bool, nums)}")]),
('ref','C22','take error helper',[(W,"	w.rw.Lock()\n	err = w.err\n	w.err = nil\n	w.rw.Unlock()\n	return","	return w.take()"),(W,"func (w *Worker) close() {","func (w *Worker) take() error {\n	w.rw.Lock()\n	defer w.rw.Unlock()\n	err := w.err\n	w.err = nil\n	return err\n}\n\nfunc (w *Worker) close() {")]),
('ref','C22','rename and mutex',[(W,"	rw     sync.RWMutex","	rw     sync.RWMutex // guards err and closed"),(W,"	w.wg.Add(1)\n	w.pools <- true\n","	w.pools <- true\n	w.wg.Add(1)\n")]),
]

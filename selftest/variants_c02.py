F='context.go'
RUN='''	for c.index <= len(c.filters) {
		f := c.handler()
		if f == nil {
			c.index += 1
			continue
		}

		_, err := c.Invoke(f())
		if err != nil {
			panic(err)
		}
		c.index += 1

		if c.Written() {
			return
		}
	}
'''
V=[
('bug','C02','no written check',[(F,"		if c.Written() {\n			return\n		}\n","")]),
('bug','C02','action not reached',[(F,"for c.index <= len","for c.index < len")]),
('bug','C02','next without move',[(F,"	c.index += 1\n	c.run()","	c.run()")]),
('bug','C02','error ignored',[(F,"		if err != nil {\n			panic(err)\n		}\n		c.index","		_ = err\n		c.index")]),
('bug','C02','step two',[(F,"		c.index += 1\n\n		if","		c.index += 2\n\n		if")]),
('bug','C02','nil stops',[(F,"			c.index += 1\n			continue","			return")]),
('bug','C02','written only for filters',[(F,"		if c.Written() {","		if c.index < len(c.filters) && c.Written() {")]),
('bug','C02','index 1',[(F,"		rw:      rw,\n		filters: filters,\n	}\n\n	ctx.Inj","		rw:      rw,\n		filters: filters,\n		index:   1,\n	}\n\n	ctx.Inj")]),
('bug','C02','serve nil filters',[('app.go',"newContext(nil, trw, s.filters, s.route.handle)","newContext(nil, trw, nil, s.route.handle)")]),
('bug','C02','serve no router',[('app.go',"newContext(nil, trw, s.filters, s.route.handle)","newContext(nil, trw, s.filters, nil)")]),
('bug','C02','repeat on unwritten',[(F,"		c.index += 1\n\n		if c.Written() {\n			return\n		}","		if c.Written() {\n			return\n		}\n		if f != nil {\n			c.index += 1\n		}\n		if c.index == 1 {\n			c.index = 0\n		}")]),
('bug','C02','handler neighbour',[(F,"return c.filters[c.index].fun","if c.index > 3 {\n			return c.filters[c.index-1].fun\n		}\n		return c.filters[c.index].fun")]),
('bug','C02','stop when list shorter',[(F,"	for c.index <= len(c.filters) {","	for c.index <= len(c.filters) && c.index < 64 {")]),
('ref','C02','for post',[(F,RUN,'''	for ; c.index <= len(c.filters); c.index++ {
		f := c.handler()
		if f == nil {
			continue
		}
		if _, err := c.Invoke(f()); err != nil {
			panic(err)
		}
		if c.Written() {
			c.index++
			return
		}
	}
''')]),
('ref','C02','helper',[(F,RUN,'''	for {
		if c.index > len(c.filters) {
			return
		}
		if !c.step() {
			return
		}
	}
}

func (c *context) step() bool {
	f := c.handler()
	if f == nil {
		c.index++
		return true
	}
	prov := f()
	if _, err := c.Invoke(prov); err != nil {
		panic(err)
	}
	c.index++
	return !c.rw.Written()
''')]),
('ref','C02','inline handler',[(F,"		f := c.handler()\n","		f := c.action\n		if i := c.index; i < len(c.filters) {\n			f = c.filters[i].fun\n		}\n"),(F,'''func (c *context) handler() FilterFunc {
	if c.index < len(c.filters) {
		return c.filters[c.index].fun
	}
	if c.index == len(c.filters) {
		return c.action
	}
	panic("invalid index for context handler")
}
''','')]),
('ref','C02','written status',[(F,"return c.rw.Written()","return c.rw.Status() != 0")]),
('ref','C02','written first then step',[(F,"		c.index += 1\n\n		if c.Written() {\n			return\n		}","		done := c.Written()\n		c.index = c.index + 1\n		if done {\n			break\n		}")]),
('ref','C02','ctx var',[('app.go',"	var ctx Context\n	ctx = newContext(nil, trw, s.filters, s.route.handle)\n","	chain := newContext(nil, trw, s.filters, s.route.handle)\n	var ctx Context = chain\n"),('app.go',"	ctx.(*context).run()\n","	chain.run()\n")]),
('ref','C02','provide helper',[('app.go',"	ctx.SetParent(s.inject)\n	ctx.Provide(req)\n	ctx.ProvideAs(trw, (*http.ResponseWriter)(nil))\n","	s.provide(ctx, trw, req)\n"),('app.go',"func (s *Strip) Run()","func (s *Strip) provide(ctx Context, trw ResponseWriter, req *http.Request) {\n	ctx.SetParent(s.inject)\n	ctx.Provide(req)\n	ctx.ProvideAs(trw, (*http.ResponseWriter)(nil))\n}\n\nfunc (s *Strip) Run()")]),
]

I='github.com/lyraproj/dgo/'
BUGS=[
 dict(id="C14-a",prop="C14",edits=[("streamer/streamer.go",'''		if sc.consumer.CanDoBinary() {
			sc.addData(value)
''','''		if sc.consumer.CanDoBinary() {
			sc.consumer.Add(value)
''')],
  imports=[I+'vf',I+'streamer'],
  demo='''
	x := vf.Values("some", "array")
	v := vf.Values(vf.Binary([]byte{1, 2}, true), x, "other", x)
	c := streamer.NewCollector()
	streamer.New(nil, nil).Stream(v, c)
	if !v.Equals(c.Value()) {
		bad("%s comes back as %s", v, c.Value())
	}
''',needs="a binary that is given as such to the consumer, followed by a value that occurs twice",breaks="positions of the streamer and the consumer differ, so references denote another value"),
 dict(id="C14-b",prop="C14",edits=[("streamer/streamer.go",'''	sc.process(value, func() {
		sc.addArray(value.Len(), func() {
			value.EachWithIndex(''','''	if value.Len() == 0 {
		// nothing to be gained from a reference
		sc.consumer.AddArray(0, func() {})
		return
	}
	sc.process(value, func() {
		sc.addArray(value.Len(), func() {
			value.EachWithIndex(''')],
  imports=[I+'vf',I+'streamer'],
  demo='''
	x := vf.Values("some", "array")
	v := vf.Map("none", vf.Values(), "x", x, "y", "a string", "z", x)
	r := streamer.UnmarshalJSON(streamer.MarshalJSON(v, nil), nil)
	if !v.Equals(r) {
		bad("%s comes back as %s", v, r)
	}
''',needs="an empty array before a value that occurs twice",breaks="positions of the streamer and the consumer differ, so references denote another value"),
 dict(id="C14-c",prop="C14",edits=[("streamer/streamer.go",'''				d := sc.config.Dialect
				sc.addData(d.TypeKey())
				sc.addData(d.TimeTypeName())
				sc.addData(d.ValueKey())
				sc.emitData(vf.String(value.String()))
''','''				d := sc.config.Dialect
				sc.addData(d.TypeKey())
				sc.addData(d.TimeTypeName())
				sc.addData(d.ValueKey())
				sc.emitData(vf.String(value.GoTime().Format("2006-01-02T15:04:05.999999Z07:00")))
''')],
  imports=[I+'vf',I+'streamer','time'],
  demo='''
	v := vf.Time(time.Unix(1234567890, 123456789))
	r := streamer.UnmarshalJSON(streamer.MarshalJSON(v, nil), nil)
	if !v.Equals(r) {
		bad("%s comes back as %s", v, r)
	}
''',needs="a time with nanoseconds and a consumer that does not take times",breaks="times lose their nanoseconds"),
 dict(id="C14-d",prop="C14",edits=[("streamer/json.go",'''		if i, err := t.Int64(); err == nil {
			j.consumer.Add(vf.Integer(i))
''','''		if f, err := t.Float64(); err == nil && !bytes.ContainsAny([]byte(t), `.eE`) && f >= -1e15 && f < 1e16 {
			j.consumer.Add(vf.Integer(int64(f)))
		} else if i, err := t.Int64(); err == nil {
			j.consumer.Add(vf.Integer(i))
''')],
  imports=[I+'vf',I+'streamer'],
  demo='''
	v := vf.Integer(9007199254740993)
	r := streamer.UnmarshalJSON(streamer.MarshalJSON(v, nil), nil)
	if !v.Equals(r) {
		bad("%s comes back as %s", v, r)
	}
''',needs="an odd integer between 2^53 and 10^16 in JSON",breaks="integers are read through a float and lose precision"),
 dict(id="C14-e",prop="C14",edits=[("streamer/datacollector.go",'''func (c *dataCollector) CanDoTime() bool {
	return false
''','''func (c *dataCollector) CanDoTime() bool {
	return len(c.Stack) > 5 // deeply nested
''')],
  imports=[I+'vf',I+'streamer','time'],
  demo='''
	v := vf.Values(vf.Values(vf.Values(vf.Values(vf.Values(vf.Values(vf.Time(time.Unix(0, 0))))))))
	c := streamer.DataCollector()
	streamer.New(nil, nil).Stream(v, c)
	d := c.Value().(dgo.Array)
	for i := 0; i < 5; i++ {
		d = d.Get(0).(dgo.Array)
	}
	if _, ok := d.Get(0).(dgo.Time); ok {
		bad("a time in pure data")
	}
''',needs="a time nested more than five levels deep, given to a data collector",breaks="a collector of pure data holds rich data"),
]
BUGS[-1]["imports"].append(I+'dgo')

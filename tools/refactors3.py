"""Behaviour-preserving edits of concurrent code and of locking (see refactors.py)."""
import refactors as rf, refactors2 as r2
F, S, ref = r2.F, r2.S, rf.ref
SA, MA = 'aggregate/simple_aggregate.go', 'aggregate/joint.go'

ref('r3-agg-chan-close', F(SA, '(s *SimpleAggregateMetric) Push(', '''
func (s *SimpleAggregateMetric) Push(x float64) error {
	s.mux.Lock()
	defer s.mux.Unlock()
	errs := make(chan error, len(s.metrics))
	var wg sync.WaitGroup
	for _, metric := range s.metrics {
		wg.Add(1)
		go func(metric stream.SimpleMetric) {
			defer wg.Done()
			if err := metric.Push(x); err != nil {
				errs <- err
			}
		}(metric)
	}
	wg.Wait()
	close(errs)

	var result *multierror.Error
	for err := range errs {
		result = multierror.Append(result, err)
	}
	if err := result.ErrorOrNil(); err != nil {
		return errors.Wrapf(err, "error pushing %f to metrics", x)
	}
	return nil
}
'''))
ref('r3-agg-chan-join', F(SA, '(s *SimpleAggregateMetric) Push(', '''
func (s *SimpleAggregateMetric) Push(x float64) error {
	s.mux.Lock()
	defer s.mux.Unlock()
	errs := make(chan error, len(s.metrics))
	for _, metric := range s.metrics {
		go func(metric stream.SimpleMetric) {
			errs <- metric.Push(x)
		}(metric)
	}

	var result *multierror.Error
	for range s.metrics {
		if err := <-errs; err != nil {
			result = multierror.Append(result, err)
		}
	}
	if err := result.ErrorOrNil(); err != nil {
		return errors.Wrapf(err, "error pushing %f to metrics", x)
	}
	return nil
}
'''), F(SA, '(s *SimpleAggregateMetric) Clear(', '''
func (s *SimpleAggregateMetric) Clear() {
	s.mux.Lock()
	defer s.mux.Unlock()
	done := make(chan struct{})
	for _, metric := range s.metrics {
		go func(metric stream.SimpleMetric) {
			metric.Clear()
			done <- struct{}{}
		}(metric)
	}
	for i := 0; i < len(s.metrics); i++ {
		<-done
	}
}
'''))
ref('r3-agg-lockmap', F(SA, '(s *SimpleAggregateMetric) Values(', '''
func (s *SimpleAggregateMetric) Values() (map[string]float64, error) {
	s.mux.Lock()
	defer s.mux.Unlock()
	var res results
	res.values = map[string]float64{}
	var wg sync.WaitGroup
	for _, metric := range s.metrics {
		wg.Add(1)
		go res.collect(&wg, metric)
	}
	wg.Wait()
	return res.get()
}

// results collects the values of metrics.
type results struct {
	mux    sync.Mutex
	values map[string]float64
	err    *multierror.Error
}

func (r *results) collect(wg *sync.WaitGroup, metric stream.SimpleMetric) {
	defer wg.Done()
	val, err := metric.Value()
	r.mux.Lock()
	defer r.mux.Unlock()
	if err != nil {
		r.err = multierror.Append(r.err, err)
		return
	}
	r.values[metric.String()] = val
}

func (r *results) get() (map[string]float64, error) {
	if r.err != nil {
		return nil, errors.Wrap(r.err, "error retrieving values from metrics")
	}
	return r.values, nil
}
'''))
ref('r3-agg-pointerslots', F(SA, '(s *SimpleAggregateMetric) Push(', '''
func (s *SimpleAggregateMetric) Push(x float64) error {
	s.mux.Lock()
	defer s.mux.Unlock()
	errs := make([]error, len(s.metrics))
	var wg sync.WaitGroup
	wg.Add(len(s.metrics))
	for i, metric := range s.metrics {
		go push(metric, x, &errs[i], &wg)
	}
	wg.Wait()

	var result *multierror.Error
	for _, err := range errs {
		if err != nil {
			result = multierror.Append(result, err)
		}
	}
	if result == nil {
		return nil
	}
	return errors.Wrapf(result, "error pushing %f to metrics", x)
}

func push(metric stream.SimpleMetric, x float64, err *error, wg *sync.WaitGroup) {
	defer wg.Done()
	*err = metric.Push(x)
}
'''))
ref('r3-agg-captured-index', F(SA, '(s *SimpleAggregateMetric) Push(', '''
func (s *SimpleAggregateMetric) Push(x float64) error {
	s.mux.Lock()
	defer s.mux.Unlock()
	errs := make([]error, len(s.metrics))
	var wg sync.WaitGroup
	for i := 0; i < len(s.metrics); i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[i] = s.metrics[i].Push(x)
		}()
	}
	wg.Wait()

	var result *multierror.Error
	for _, err := range errs {
		if err != nil {
			result = multierror.Append(result, err)
		}
	}
	return errors.Wrapf(result.ErrorOrNil(), "error pushing %f to metrics", x)
}
'''))
ref('r3-agg-sequential', F(SA, '(s *SimpleAggregateMetric) Clear(', '''
func (s *SimpleAggregateMetric) Clear() {
	s.mux.Lock()
	defer s.mux.Unlock()
	for _, metric := range s.metrics {
		metric.Clear()
	}
}
'''))
ref('r3-agg-struct-results', F(SA, '(s *SimpleAggregateMetric) Values(', '''
func (s *SimpleAggregateMetric) Values() (map[string]float64, error) {
	type result struct {
		name string
		val  float64
		err  error
	}
	s.mux.Lock()
	defer s.mux.Unlock()
	results := make([]result, len(s.metrics))
	var wg sync.WaitGroup
	for i, metric := range s.metrics {
		wg.Add(1)
		go func(i int, metric stream.SimpleMetric) {
			defer wg.Done()
			val, err := metric.Value()
			results[i] = result{metric.String(), val, err}
		}(i, metric)
	}
	wg.Wait()

	values := map[string]float64{}
	var errs *multierror.Error
	for _, r := range results {
		if r.err != nil {
			errs = multierror.Append(errs, r.err)
			continue
		}
		values[r.name] = r.val
	}
	if errs != nil {
		return nil, errors.Wrap(errs, "error retrieving values from metrics")
	}
	return values, nil
}
'''))
ref('r3-mean-locked', F('moment/mean.go', '(m *Mean) Value(', '''
func (m *Mean) Value() (float64, error) {
	if m.core == nil {
		return 0, errors.New("Core is not set")
	}

	var mean float64
	err := m.core.view(func() (err error) {
		mean, err = m.core.UnsafeMean()
		return err
	})
	return mean, errors.Wrap(err, "error retrieving sum")
}
'''), S('moment/core.go', '// Push adds a new value', '''// view calls f while the core is read-locked.
func (c *Core) view(f func() error) error {
	c.RLock()
	defer c.RUnlock()
	return f()
}

// Push adds a new value'''))
ref('r3-locker', F('moment/mean.go', '(m *Mean) Value(', '''
func (m *Mean) Value() (float64, error) {
	if m.core == nil {
		return 0, errors.New("Core is not set")
	}

	l := m.core.mux.RLocker()
	l.Lock()
	defer l.Unlock()

	mean, err := m.core.UnsafeMean()
	if err != nil {
		return 0, errors.Wrap(err, "error retrieving sum")
	}
	return mean, nil
}
'''))
ref('r3-with-mutex', F('moment/core.go', '(c *Core) Push(', '''
func (c *Core) Push(x float64) error {
	defer lock(&c.mux)()
	return c.UnsafePush(x)
}

// lock locks the mutex and returns what unlocks it.
func lock(mux *sync.RWMutex) func() {
	mux.Lock()
	return mux.Unlock
}
'''))
ref('r3-locker-param', F('moment/core.go', '(c *Core) Clear(', '''
func (c *Core) Clear() {
	with(&c.mux, c.UnsafeClear)
}

func with(l sync.Locker, f func()) {
	l.Lock()
	defer l.Unlock()
	f()
}
'''))
ref('r3-jc-push-table', S('joint/core.go', '''	var err error
	if c.decay == nil {
		err = c.add(xs...)
	} else {
		err = c.addDecay(xs...)
	}
	if err != nil {
		return errors.Wrapf(err, "error adding %v to sums", xs)
	}
''', '''	update := map[bool]func(...float64) error{true: c.addDecay, false: c.add}[c.decay != nil]
	if err := update(xs...); err != nil {
		return errors.Wrapf(err, "error adding %v to sums", xs)
	}
'''))
ref('r3-mc-push-slice', S('moment/core.go', '''	if c.decay == nil {
		c.add(x)
	} else {
		c.addDecay(x)
	}
''', '''	updates := []func(float64){c.add, c.addDecay}
	i := 0
	if c.decay != nil {
		i = 1
	}
	updates[i](x)
'''))

if __name__ == '__main__':
    r2.main('r3-')

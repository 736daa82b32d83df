"""Behaviour-preserving edits on which every check must stay quiet.

Usage: python3 refactors.py CHECKER [name...]
Applies each edit to a scratch copy of /repo, builds it, and runs every analysis
on it. Development aid; no check uses it."""
import concurrent.futures as cf, os, shutil, subprocess, sys, tempfile

R = []
def ref(name, *edits):
    R.append((name, edits))

MC, JC, JT = 'moment/core.go', 'joint/core.go', 'joint/tuple.go'
AVL, RB, SL, HP = 'quantile/ost/avl/node.go', 'quantile/ost/rb/node.go', 'quantile/skiplist/skiplist.go', 'quantile/heap/heap.go'
Q, HM = 'quantile/quantile.go', 'quantile/heap_median.go'

ref('mc-push-early-return', (MC, '''	if c.decay == nil {
		c.add(x)
	} else {
		c.addDecay(x)
	}
	return nil''', '''	if c.decay != nil {
		c.addDecay(x)
		return nil
	}
	c.add(x)
	return nil'''))
ref('mc-push-helper', (MC, '''	if c.window != 0 {
		if c.queue.Len() == uint64(c.window) {
			tail, err := c.queue.Get()
			if err != nil {
				return errors.Wrap(err, "error popping item from queue")
			}

			c.remove(tail.(float64))
		}

		err := c.queue.Put(x)
		if err != nil {
			return errors.Wrapf(err, "error pushing %f to queue", x)
		}
	}

	if c.decay''', '''	if err := c.slide(x); err != nil {
		return err
	}

	if c.decay'''), (MC, '''// add updates the mean, count, and centralized power sums in''', '''// slide makes room for x in the window.
func (c *Core) slide(x float64) error {
	if c.window == 0 {
		return nil
	}

	if full := c.queue.Len() == uint64(c.window); full {
		tail, err := c.queue.Get()
		if err != nil {
			return errors.Wrap(err, "error popping item from queue")
		}

		c.remove(tail.(float64))
	}

	if err := c.queue.Put(x); err != nil {
		return errors.Wrapf(err, "error pushing %f to queue", x)
	}
	return nil
}

// add updates the mean, count, and centralized power sums in'''))
ref('mc-push-ge', (MC, 'c.queue.Len() == uint64(c.window)', 'c.queue.Len() >= uint64(c.window)'))
ref('mc-push-window-gt', (MC, '	if c.window != 0 {\n		if c.queue', '	if c.window > 0 {\n		if c.queue'))
ref('mc-add-upward-locals', (MC, '''	for k := len(c.sums) - 1; k >= 2; k-- {
		c.sums[k] +=
			(count - 1) / math.Pow(count, float64(k)) *
				(math.Pow(count-1, float64(k-1)) + float64(mathutil.Sign(k))) *
				math.Pow(delta, float64(k))
		for i := 1; i <= k-2; i++ {
			c.sums[k] +=
				float64(mathutil.Binom(k, i)*mathutil.Sign(i)) *
					math.Pow(delta/count, float64(i)) *
					c.sums[k-i]
		}
	}''', '''	for k := len(c.sums) - 1; k > 1; k-- {
		kf := float64(k)
		coeff := (count - 1) / math.Pow(count, kf) *
			(math.Pow(count-1, kf-1) + float64(mathutil.Sign(k)))
		sum := c.sums[k] + coeff*math.Pow(delta, kf)
		for i := 1; i < k-1; i++ {
			sum += float64(mathutil.Binom(k, i)*mathutil.Sign(i)) *
				math.Pow(delta/count, float64(i)) * c.sums[k-i]
		}
		c.sums[k] = sum
	}'''))
ref('mc-add-order', (MC, '''	c.count++
	count := float64(c.count)
	delta := x - c.mean
	c.mean += delta / count
	for k''', '''	delta := x - c.mean
	c.count++
	count := float64(c.count)
	c.mean = c.mean + delta/count
	for k'''))
ref('mc-remove-early', (MC, '''	c.count--
	if c.count > 0 {
		count := float64(c.count)''', '''	c.count--
	if c.count >= 1 {
		count := float64(c.count)'''))
ref('mc-remove-guard', (MC, '''	} else {
		c.mean = 0
		for k := range c.sums {
			c.sums[k] = 0
		}
	}
}

// Count''', '''		return
	}

	c.mean = 0
	for k := 0; k < len(c.sums); k++ {
		c.sums[k] = 0
	}
}

// Count'''))
ref('mc-remove-loop', (MC, 'for k := 2; k <= len(c.sums)-1; k++ {', 'for k := 2; k < len(c.sums); k++ {'))
ref('mc-decay-helper', (MC, '''	var decay float64
	if c.count == 1 {
		decay = 1
	} else {
		decay = *c.decay
	}

	delta := x - c.mean
	c.mean += decay * delta''', '''	decay := c.weight()
	delta := x - c.mean
	c.mean += decay * delta'''), (MC, '// remove simply undoes', '''// weight of the newest value.
func (c *Core) weight() float64 {
	if c.count == 1 {
		return 1
	}
	return *c.decay
}

// remove simply undoes'''))
ref('mc-clear-order', (MC, '''	for k := range c.sums {
		c.sums[k] = 0
	}

	c.count = 0
	c.mean = 0
	c.queue.Dispose()''', '''	c.mean = 0
	c.count = 0
	for k := len(c.sums) - 1; k >= 0; k-- {
		c.sums[k] = 0
	}
	c.queue.Dispose()'''))
ref('mc-clear-make', (MC, '''	for k := range c.sums {
		c.sums[k] = 0
	}

	c.count = 0''', '''	c.sums = make([]float64, len(c.sums))

	c.count = 0'''))
ref('mc-sum-switch', (MC, '''	if c.count == 0 {
		return 0, errors.New("no values seen yet")
	}

	if k <= 0 || k >= len(c.sums) {
		return 0, errors.Errorf("%d is not a tracked power sum", k)
	}

	return c.sums[k], nil''', '''	switch {
	case c.count == 0:
		return 0, errors.New("no values have been seen yet")
	case k < 1, len(c.sums)-1 < k:
		return 0, errors.Errorf("%d is not a tracked power sum", k)
	default:
		return c.sums[k], nil
	}'''))
ref('mc-newcore-literal', (MC, '''	c := &Core{}
	c.window = *config.Window
	c.decay = config.Decay

	maxSum := -1
	for k := range config.Sums {
		if k > maxSum {
			maxSum = k
		}
	}
	c.sums = make([]float64, maxSum+1)

	c.queue = queue.NewRingBuffer(uint64(c.window))

	return c, nil''', '''	size := 0
	for k := range config.Sums {
		if k+1 > size {
			size = k + 1
		}
	}

	window := *config.Window
	return &Core{
		window: window,
		decay:  config.Decay,
		sums:   make([]float64, size),
		queue:  queue.NewRingBuffer(uint64(window)),
	}, nil'''))
ref('mc-rename-field', *[(MC, a, b) for a, b in [('c.mean', 'c.average'), ('	mean   float64', '	average float64')]])
ref('mc-rename-add', *[(MC, a, b) for a, b in [('c.add(x)', 'c.include(x)'), ('func (c *Core) add(', 'func (c *Core) include(')]])
ref('mc-lock-nodefer', (MC, '''	c.mux.Lock()
	defer c.mux.Unlock()
	return c.UnsafePush(x)''', '''	c.mux.Lock()
	err := c.UnsafePush(x)
	c.mux.Unlock()
	return err'''))
ref('moment-merge-helper', ('moment/config.go', '''			if config.Window != nil {
				if window == nil {
					window = config.Window
				} else if *window != *config.Window {
					return nil, errors.New("configs have differing windows")
				}
			}
''', '''			switch {
			case config.Window == nil:
			case window == nil:
				window = config.Window
			case *window != *config.Window:
				return nil, errors.New("configs have differing windows")
			}
'''))
ref('moment-merge-early', ('moment/config.go', '''	switch len(configs) {
	case 0:
		return nil, errors.New("no configs available to merge")
	case 1:
		return configs[0], nil
	default:
''', '''	if len(configs) == 0 {
		return nil, errors.New("no configs available to merge")
	} else if len(configs) == 1 {
		return configs[0], nil
	} else {
'''))
ref('moment-validate-order', ('moment/config.go', '''	for k := range config.Sums {
		if k <= 0 {
			return errors.Errorf("config has a nonpositive central moment of %d", k)
		}
	}

	return nil
}''', '''	return validateSums(config.Sums)
}

func validateSums(sums SumsConfig) error {
	for k := range sums {
		if k < 1 {
			return errors.Errorf("config has a nonpositive central moment of %d", k)
		}
	}
	return nil
}'''))
ref('moment-validate-decay', ('moment/config.go', '''		if !(*config.Decay > 0 && *config.Decay < 1) { // also rejects NaN
			return errors.Errorf("config has a decay of %f, which is not in (0, 1)", *config.Decay)
		} else if *config.Window > 0 {''', '''		decay := *config.Decay
		if math.IsNaN(decay) || decay <= 0 || decay >= 1 {
			return errors.Errorf("config has a decay of %f, which is not in (0, 1)", decay)
		}
		if *config.Window != 0 {'''), ('moment/config.go', 'import (\n', 'import (\n	"math"\n'))
ref('std-inline', ('moment/std.go', '''	variance, err := s.variance.Value()
	if err != nil {
		return 0, errors.Wrap(err, "error retrieving 2nd moment")
	}
	return math.Sqrt(variance), nil''', '''	v, err := s.variance.Value()
	if err == nil {
		return math.Sqrt(v), nil
	}
	return 0, errors.Wrap(err, "error retrieving variance")'''))
ref('moment-value-formula', ('moment/moment.go', '''	count := m.core.UnsafeCount()
	moment /= (float64(count) - 1.)

	return moment, nil''', '''	return moment / float64(m.core.UnsafeCount()-1), nil'''))
ref('kurt-formula', ('moment/kurtosis.go', 'count := float64(k.core.UnsafeCount())', 'n := k.core.UnsafeCount()\n	count := float64(n)'))
ref('skew-push-shared', ('moment/skewness.go', 'errors.Wrap(err, "error pushing to core")', 'errors.WithMessage(err, "pushing to core")'))
ref('jc-push-helper', (JC, '''	var err error
	if c.decay == nil {
		err = c.add(xs...)
	} else {
		err = c.addDecay(xs...)
	}
	if err != nil {
		return errors.Wrapf(err, "error adding %v to sums", xs)
	}

	return nil
}''', '''	if err := c.include(xs); err != nil {
		return errors.Wrapf(err, "error adding %v to sums", xs)
	}

	return nil
}

func (c *Core) include(xs []float64) error {
	if c.decay != nil {
		return c.addDecay(xs...)
	}
	return c.add(xs...)
}'''))
ref('jc-push-copy', (JC, '''		err := c.queue.Put(append([]float64{}, xs...))
		if err != nil {''', '''		kept := make([]float64, len(xs))
		copy(kept, xs)
		if err := c.queue.Put(kept); err != nil {'''))
ref('jc-add-switch', (JC, '''				abs := b.abs()
				if abs == 0 {
					c.newSums[hash] += c.sums[hash]
				} else if b.eq(a) {
					coeff := (count - 1) / math.Pow(count, float64(abs)) *
						(math.Pow(count-1, float64(abs-1)) + float64(mathutil.Sign(abs)))
					c.newSums[hash] += coeff * deltaPow
				} else {
					multinomial, err := multinom(a, b)
					if err != nil {
						return err
					}

					diff, err := sub(a, b)
					if err != nil {
						return err
					}

					c.newSums[hash] += float64(multinomial*mathutil.Sign(abs)) /
						math.Pow(count, float64(abs)) * deltaPow * c.sums[diff.hash()]
				}

				return nil''', '''				abs := b.abs()
				switch {
				case abs == 0:
					c.newSums[hash] += c.sums[hash]
				case b.eq(a):
					absf := float64(abs)
					coeff := (count - 1) / math.Pow(count, absf) *
						(math.Pow(count-1, absf-1) + float64(mathutil.Sign(abs)))
					c.newSums[hash] += coeff * deltaPow
				default:
					multinomial, err := multinom(a, b)
					if err != nil {
						return err
					}

					diff, err := sub(a, b)
					if err != nil {
						return err
					}

					c.newSums[hash] += float64(multinomial*mathutil.Sign(abs)) *
						deltaPow * c.sums[diff.hash()] / math.Pow(count, float64(abs))
				}

				return nil'''))
ref('jc-commit-helper', (JC, '''	for hash, sum := range c.newSums {
		c.sums[hash] = sum
	}

	return nil
}
''', '''	c.commit()
	return nil
}
'''), (JC, '// Count returns the number', '''// commit publishes the new sums.
func (c *Core) commit() {
	for hash, sum := range c.newSums {
		c.sums[hash] = sum
	}
}

// Count returns the number'''))
ref('jc-delta-helper', (JC, '''	delta := make([]float64, len(c.means))
	for i, x := range xs {
		delta[i] = x - c.means[i]
		c.means[i] += delta[i] / count
	}
''', '''	delta := make([]float64, len(c.means))
	for i := range xs {
		d := xs[i] - c.means[i]
		delta[i] = d
		c.means[i] += d / count
	}
'''))
ref('jc-clear-helper', (JC, '''	for i := range c.means {
		c.means[i] = 0
	}
	for hash := range c.sums {
		c.sums[hash] = 0
	}
	for hash := range c.newSums {
		c.newSums[hash] = 0
	}

	c.count = 0
	c.queue''', '''	c.reset()

	c.count = 0
	c.queue'''), (JC, '''		for i := range c.means {
			c.means[i] = 0
		}
		for hash := range c.sums {
			c.sums[hash] = 0
		}
		for hash := range c.newSums {
			c.newSums[hash] = 0
		}
	}
''', '''		c.reset()
	}
'''), (JC, '// Count returns the number', '''// reset zeroes all stats.
func (c *Core) reset() {
	for i := range c.means {
		c.means[i] = 0
	}
	for hash := range c.sums {
		c.sums[hash] = 0
	}
	for hash := range c.newSums {
		c.newSums[hash] = 0
	}
}

// Count returns the number'''))
ref('jc-tracks-leq', (JC, '''		tracked := len(m) == len(tuple)
		for i := 0; tracked && i < len(m); i++ {
			tracked = 0 <= m[i] && m[i] <= tuple[i]
		}
		if tracked {
			return true
		}
''', '''		if tracked(m, tuple) {
			return true
		}
'''), (JC, '// Clear clears all', '''func tracked(m, tuple Tuple) bool {
	if len(m) != len(tuple) {
		return false
	}
	for i, x := range m {
		if x < 0 || x > tuple[i] {
			return false
		}
	}
	return true
}

// Clear clears all'''))
ref('jc-sum-split', (JC, '''	sum, ok := c.sums[Tuple(xs).hash()]
	if !ok || !c.tracks(xs) {
		return 0, errors.Errorf("%v is not a tracked power sum", xs)
	}

	return sum, nil''', '''	tuple := Tuple(xs)
	if !c.tracks(tuple) {
		return 0, errors.Errorf("%v is not a tracked power sum", xs)
	}
	if sum, ok := c.sums[tuple.hash()]; ok {
		return sum, nil
	}
	return 0, errors.Errorf("%v is not a tracked power sum", xs)'''))
ref('jt-abs-index', (JT, '''	for _, i := range m {
		sum += i
	}''', '''	for i := 0; i < len(m); i++ {
		sum += m[i]
	}'''))
ref('jt-eq-flag', (JT, '''	for i := range m {
		if m[i] != n[i] {
			return false
		}
	}

	return true
}

// leq''', '''	same := true
	for i, x := range m {
		if x != n[i] {
			same = false
			break
		}
	}

	return same
}

// leq'''))
ref('jt-sub-append', (JT, '''	result := Tuple(make([]int, len(m)))
	for i := range m {
		result[i] = m[i] - n[i]
	}
	return result, nil''', '''	result := make(Tuple, 0, len(m))
	for i := range m {
		result = append(result, m[i]-n[i])
	}
	return result, nil'''))
ref('jt-lencheck-helper', (JT, '''	if len(m) != len(n) {
		return 0, errors.Errorf(
			"Tuples have different lengths: %d != %d",
			len(m),
			len(n),
		)
	}

	result := 1''', '''	if err := sameLength(m, n); err != nil {
		return 0, err
	}

	result := 1'''), (JT, '''	if len(m) != len(n) {
		return nil, errors.Errorf(
			"Tuples have different lengths: %d != %d",
			len(m),
			len(n),
		)
	}
''', '''	if err := sameLength(m, n); err != nil {
		return nil, err
	}
'''), (JT, 'func multinom(', '''func sameLength(m, n Tuple) error {
	if len(m) == len(n) {
		return nil
	}
	return errors.Errorf("Tuples have different lengths: %d != %d", len(m), len(n))
}

func multinom('''))
ref('jt-iter-locals', (JT, '''	if reverse {
		for i := tuple[len(tuple)-1]; i >= 0; i-- {
			err := iter(tuple[:len(tuple)-1], reverse, func(xs ...int) error {
				xs = append(xs, i)
				return cb(xs...)
			})
			result = multierror.Append(result, err)
		}
	} else {
		for i := 0; i <= tuple[len(tuple)-1]; i++ {
			err := iter(tuple[:len(tuple)-1], reverse, func(xs ...int) error {
				xs = append(xs, i)
				return cb(xs...)
			})
			result = multierror.Append(result, err)
		}
	}''', '''	last, rest := tuple[len(tuple)-1], tuple[:len(tuple)-1]
	step := func(i int) {
		err := iter(rest, reverse, func(xs ...int) error {
			return cb(append(xs, i)...)
		})
		result = multierror.Append(result, err)
	}
	if reverse {
		for i := last; i >= 0; i-- {
			step(i)
		}
	} else {
		for i := 0; i <= last; i++ {
			step(i)
		}
	}'''))
ref('joint-simplify', ('joint/config.go', '''		leq := false
		for j, n := range sums {
			if i <= j {
				continue
			}

			if m.leq(n) {
				leq = true
				break
			}
		}
		if leq {
			continue
		}

		newSums = append(newSums, m)''', '''		leq := false
		for _, n := range sums[:i] {
			if m.leq(n) {
				leq = true
				break
			}
		}
		if !leq {
			newSums = append(newSums, m)
		}'''))
ref('joint-add-variadic', ('joint/config.go', '''	for _, t := range s2 {
		*s1 = append(*s1, t)
	}''', '''	*s1 = append(*s1, s2...)'''))
ref('corr-helper', ('joint/corr.go', '''	return cov / math.Sqrt(xVar*yVar), nil''', '''	norm := math.Sqrt(xVar * yVar)
	return cov / norm, nil'''))
ref('corr-order', ('joint/corr.go', '''	if !corr.IsSetCore() {
		return errors.New("Core is not set")
	}

	if len(xs) != 2 {
		return errors.Errorf(
			"Corr expected 2 arguments: got %d (%v)",
			len(xs),
			xs,
		)
	}
''', '''	if n := len(xs); n != 2 {
		return errors.Errorf("Corr expected 2 arguments: got %d (%v)", n, xs)
	} else if !corr.IsSetCore() {
		return errors.New("Core is not set")
	}
'''))
ref('autocov-push', ('joint/autocov.go', '''	if a.queue.Len() >= uint64(a.lag) {
		tail''', '''	if int(a.queue.Len()) == a.lag {
		tail'''))
ref('autocorr-helper', ('joint/autocorr.go', 'if a.queue.Len() >= uint64(a.lag) {', 'lagged := a.queue.Len() >= uint64(a.lag)\n	if lagged {'))
for f, op in (('min', '>'), ('max', '<')):
    n = f.capitalize()
    ref('mm-%s-loop' % f, ('minmax/%s.go' % f, '''		for m.deque.Len() > 0 && m.deque.Back() %s x {
			m.deque.PopBack()
		}
		m.deque.PushBack(x)
''' % op, '''		for m.deque.Len() != 0 {
			if !(m.deque.Back() %s x) {
				break
			}
			m.deque.PopBack()
		}
		m.deque.PushBack(x)
''' % op))
    ref('mm-%s-early' % f, ('minmax/%s.go' % f, '''	if m.window != 0 {
		if m.queue''', '''	if m.window == 0 {
		m.count++
		m.%s = math.%s(m.%s, x)
	} else {
		if m.queue''' % (f, n, f)), ('minmax/%s.go' % f, '''		m.deque.PushBack(x)

	} else {
		m.count++
		m.%s = math.%s(m.%s, x)
	}
''' % (f, n, f), '''		m.deque.PushBack(x)
	}
'''))
    ref('mm-%s-value' % f, ('minmax/%s.go' % f, '''	if m.count == 0 {
		return 0, errors.New("no values seen yet")
	} else if m.window == 0 {
		return m.%s, nil
	}

	return m.deque.Front(), nil''' % f, '''	switch {
	case m.count <= 0:
		return 0, errors.New("no values seen yet")
	case m.window != 0:
		return m.deque.Front(), nil
	default:
		return m.%s, nil
	}''' % f))
    ref('mm-%s-global' % f, ('minmax/%s.go' % f, '''	return &%s{
		queue:  queue.NewRingBuffer(uint64(0)),''' % n, '''	m, err := New%s(0)
	if err == nil {
		return m
	}
	return &%s{
		queue:  queue.NewRingBuffer(uint64(0)),''' % (n, n)))
ref('q-push-helper', (Q, '''		if q.queue.Len() == uint64(q.window) {
			val, err := q.queue.Get()
			if err != nil {
				return errors.Wrap(err, "error popping item from queue")
			}

			y := val.(float64)
			q.statistic.Remove(y)
		}
''', '''		if err := q.evict(); err != nil {
			return err
		}
'''), (Q, '// Value returns', '''func (q *Quantile) evict() error {
	if q.queue.Len() < uint64(q.window) {
		return nil
	}
	val, err := q.queue.Get()
	if err != nil {
		return errors.Wrap(err, "error popping item from queue")
	}
	q.statistic.Remove(val.(float64))
	return nil
}

// Value returns'''))
ref('q-value-helper', (Q, '''	delta := idxRaw - idxTrunc
	switch q.interpolation {
	case Linear:
		lo := q.statistic.Select(idx).Value()
		hi := q.statistic.Select(idx + 1).Value()
		return (1-delta)*lo + delta*hi, nil
	case Lower:
		return q.statistic.Select(idx).Value(), nil
	case Higher:
		return q.statistic.Select(idx + 1).Value(), nil
''', '''	at := func(i int) float64 { return q.statistic.Select(i).Value() }
	delta := idxRaw - idxTrunc
	switch q.interpolation {
	case Linear:
		lo, hi := at(idx), at(idx+1)
		return lo + delta*(hi-lo), nil
	case Lower:
		return at(idx), nil
	case Higher:
		return at(idx + 1), nil
'''))
ref('q-value-floor', (Q, 'idxTrunc := math.Trunc(idxRaw)', 'idxTrunc := math.Floor(idxRaw)'))
ref('q-value-nearest', (Q, '''		case delta == 0.5:
			if idx%2 == 0 {
				return q.statistic.Select(idx).Value(), nil
			}
			return q.statistic.Select(idx + 1).Value(), nil
		case delta < 0.5:
			return q.statistic.Select(idx).Value(), nil
		default:
			return q.statistic.Select(idx + 1).Value(), nil
		}''', '''		case delta < 0.5, delta == 0.5 && idx%2 == 0:
			return q.statistic.Select(idx).Value(), nil
		default:
			return q.statistic.Select(idx + 1).Value(), nil
		}'''))
ref('q-value-range', (Q, 'if !(quantile > 0 && quantile < 1) {', 'if math.IsNaN(quantile) || quantile <= 0 || quantile >= 1 {'))
ref('hm-push-common', (HM, '''		item = &heap.Item{Val: x}
		if m.lowHeap.Len() == 0 || x <= m.lowHeap.Peek() {
			heapops.Push(m.lowHeap, item)
		} else {
			heapops.Push(m.highHeap, item)
		}
		m.rebalance()
	}
''', '''		item = &heap.Item{Val: x}
		target := m.highHeap
		if m.lowHeap.Len() == 0 || x <= m.lowHeap.Peek() {
			target = m.lowHeap
		}
		heapops.Push(target, item)
		m.rebalance()
	}
'''))
ref('hm-push-insert', (HM, '''		item.Val = x
		if toLow {
			heapops.Push(m.lowHeap, item)
		} else {
			heapops.Push(m.highHeap, item)
		}
		m.rebalance()
	} else {
		item = &heap.Item{Val: x}
		if m.lowHeap.Len() == 0 || x <= m.lowHeap.Peek() {
			heapops.Push(m.lowHeap, item)
		} else {
			heapops.Push(m.highHeap, item)
		}
		m.rebalance()
	}
''', '''		item.Val = x
		m.insert(item, toLow)
	} else {
		item = &heap.Item{Val: x}
		m.insert(item, m.lowHeap.Len() == 0 || x <= m.lowHeap.Peek())
	}
'''), (HM, 'func (m *HeapMedian) rebalance() {', '''func (m *HeapMedian) insert(item *heap.Item, low bool) {
	if low {
		heapops.Push(m.lowHeap, item)
	} else {
		heapops.Push(m.highHeap, item)
	}
	m.rebalance()
}

func (m *HeapMedian) rebalance() {'''))
ref('hm-value-switch', (HM, '''	if m.lowHeap.Len() < m.highHeap.Len() {
		return m.highHeap.Peek(), nil
	} else if m.lowHeap.Len() > m.highHeap.Len() {
		return m.lowHeap.Peek(), nil
	} else {
		// otherwise, return average of the two tops
		low := m.lowHeap.Peek()
		high := m.highHeap.Peek()
		return (low + high) / 2, nil
	}''', '''	diff := m.lowHeap.Len() - m.highHeap.Len()
	switch {
	case diff < 0:
		return m.highHeap.Peek(), nil
	case diff > 0:
		return m.lowHeap.Peek(), nil
	}
	// otherwise, return average of the two tops
	return 0.5 * (m.lowHeap.Peek() + m.highHeap.Peek()), nil'''))
ref('hm-rebalance', (HM, '''	if m.lowHeap.Len()+1 < m.highHeap.Len() {''', '''	low, high := m.lowHeap.Len(), m.highHeap.Len()
	if high-low > 1 {'''), (HM, '} else if m.lowHeap.Len() > m.highHeap.Len()+1 {', '} else if low-high > 1 {'))
ref('hm-clear', (HM, '''	m.queue.Dispose()
	m.queue = queue.NewRingBuffer(uint64(m.window))
	m.lowHeap = heap.New("low", []float64{}, fmax)
	m.highHeap = heap.New("high", []float64{}, fmin)
}''', '''	m.lowHeap = heap.New("low", nil, fmax)
	m.highHeap = heap.New("high", nil, fmin)
	m.queue.Dispose()
	m.queue = queue.NewRingBuffer(uint64(m.window))
}'''))
ref('hp-new-make', (HP, '''	items := []*Item{}
	for i, val := range vals {
		items = append(items, &Item{
			Val:    val,
			HeapID: id,
			index:  i,
		})
	}
''', '''	items := make([]*Item, len(vals))
	for i, val := range vals {
		items[i] = &Item{Val: val, HeapID: id, index: i}
	}
'''))
ref('hp-swap', (HP, '''	h.items[i], h.items[j] = h.items[j], h.items[i]
	h.items[i].index = i
	h.items[j].index = j''', '''	a, b := h.items[i], h.items[j]
	a.index, b.index = j, i
	h.items[i], h.items[j] = b, a'''))
ref('hp-pop', (HP, '''	x := h.items[len(h.items)-1]
	x.index = -1
	h.items = h.items[:len(h.items)-1]
	return x''', '''	last := h.Len() - 1
	x := h.items[last]
	h.items = h.items[:last]
	x.index = -1
	return x'''))
ref('avl-update', (AVL, '''	n.size = n.left.Size() + n.right.Size() + 1
	n.height = max(n.left.Height(), n.right.Height()) + 1
	return n.balance()''', '''	n.update()
	return n.balance()'''), (AVL, '''	n.size = n.left.Size() + n.right.Size() + 1

	n.height = max(n.left.Height(), n.right.Height()) + 1
	m.height = max(m.left.Height(), m.right.Height()) + 1
''', '''	n.update()
	m.height = max(m.left.Height(), m.right.Height()) + 1
'''), (AVL, 'func (n *Node) min() *Node {', '''func (n *Node) update() {
	n.size = n.left.Size() + n.right.Size() + 1
	n.height = max(n.left.Height(), n.right.Height()) + 1
}

func (n *Node) min() *Node {'''))
ref('avl-min-loop', (AVL, '''	if n.left == nil {
		return n
	}

	return n.left.min()''', '''	for n.left != nil {
		n = n.left
	}

	return n'''))
ref('avl-remove-switch', (AVL, '''	if val < root.val {
		root.left = root.left.remove(val)
	} else if val > root.val {
		root.right = root.right.remove(val)
	} else {
		if root.left == nil {
			return root.right
		} else if root.right == nil {
			return root.left
		}
		root = n.right.min()
		root.right = n.right.removeMin()
		root.left = n.left
	}
''', '''	switch {
	case val < root.val:
		root.left = root.left.remove(val)
	case root.val < val:
		root.right = root.right.remove(val)
	case root.left == nil:
		return root.right
	case root.right == nil:
		return root.left
	default:
		root = n.right.min()
		root.right = n.right.removeMin()
		root.left = n.left
	}
'''))
ref('avl-balance-local', (AVL, '''	if n.heightDiff() < -1 {''', '''	diff := n.heightDiff()
	if diff < -1 {'''), (AVL, '} else if n.heightDiff() > 1 {', '} else if diff > 1 {'))
ref('avl-rank-loop', (AVL, '''	if n == nil {
		return 0
	} else if val < n.val {
		return n.left.Rank(val)
	} else if val > n.val {
		return 1 + n.left.Size() + n.right.Rank(val)
	}
	// the left subtree may contain duplicates of the value
	return n.left.Rank(val)''', '''	if n == nil {
		return 0
	}
	if val > n.val {
		return n.right.Rank(val) + n.left.Size() + 1
	}
	// the left subtree may contain duplicates of the value
	return n.left.Rank(val)'''))
ref('avl-rank-iter', (AVL, '''	if n == nil {
		return 0
	} else if val < n.val {
		return n.left.Rank(val)
	} else if val > n.val {
		return 1 + n.left.Size() + n.right.Rank(val)
	}
	// the left subtree may contain duplicates of the value
	return n.left.Rank(val)''', '''	rank := 0
	for n != nil {
		if val > n.val {
			rank += 1 + n.left.Size()
			n = n.right
		} else {
			n = n.left
		}
	}
	return rank'''))
ref('avl-select-switch', (AVL, '''	size := n.left.Size()
	if k < size {
		return n.left.Select(k)
	} else if k > size {
		return n.right.Select(k - size - 1)
	}

	return n''', '''	switch size := n.left.Size(); {
	case k == size:
		return n
	case k < size:
		return n.left.Select(k)
	default:
		return n.right.Select(k - (size + 1))
	}'''))
ref('avl-max-flip', (AVL, '''	if x > y {
		return x
	}
	return y''', '''	if x < y {
		return y
	}
	return x'''))
ref('avl-rotate-order', (AVL, '''	m := n.right
	n.right = m.left
	m.left = n

	// No need to call size() here; we already know that n is not nil, since
	// rotations are only called for non-leaf nodes
	m.size = n.size
''', '''	m := n.right
	m.size = n.size
	n.right, m.left = m.left, n
'''))
ref('rb-balance-helper', (RB, '''	if n.left.Color() == Red && n.left.left.Color() == Red {
		n = n.rotateRight()
	}
	if n.left.Color() == Red && n.right.Color() == Red {
		n.flipColors()
	}

	n.size = n.left.Size() + n.right.Size() + 1
	return n
}
''', '''	return n.finish()
}
'''), (RB, 'func (n *Node) rotateLeft() *Node {', '''func (n *Node) finish() *Node {
	if n.left.Color() == Red && n.left.left.Color() == Red {
		n = n.rotateRight()
	}
	if n.left.Color() == Red && n.right.Color() == Red {
		n.flipColors()
	}

	n.size = n.left.Size() + n.right.Size() + 1
	return n
}

func (n *Node) rotateLeft() *Node {'''))
ref('rb-isred', (RB, 'if n.right.Color() == Red {', 'if isRed(n.right) {'), (RB, 'func (n *Node) flipColors() {', 'func isRed(n *Node) bool { return n != nil && n.color == Red }\n\nfunc (n *Node) flipColors() {'))
ref('rb-contains-rec', (RB, '''	for n != nil {
		if val == n.val {
			return true
		} else if val < n.val {
			n = n.left
		} else {
			n = n.right
		}
	}
	return false''', '''	for n != nil && n.val != val {
		if val < n.val {
			n = n.left
		} else {
			n = n.right
		}
	}
	return n != nil'''))
ref('rb-flip', (RB, '''	n.color = !n.color
	n.left.color = !n.left.color
	n.right.color = !n.right.color''', '''	for _, m := range []*Node{n, n.left, n.right} {
		m.color = !m.color
	}'''))
ref('rb-rotate', (RB, '''	x := n.right
	n.right = x.left
	x.left = n
	x.color = x.left.color
	x.left.color = Red
''', '''	x := n.right
	n.right = x.left
	x.left = n
	x.color = n.color
	n.color = Red
'''))
ref('rb-remove-guard', (RB, '''	if !n.contains(val) {
		return n
	}

	if val < n.val {''', '''	if found := n.contains(val); !found {
		return n
	}

	if val < n.val {'''))
ref('sl-add-split', (SL, '''	// update widths
	node.width[0] = 1
	for i := 1; i < s.maxLevel; i++ {
		prevs[i].width[i]++
	}
''', '''	// update widths
	for i := s.maxLevel - 1; i >= 1; i-- {
		prevs[i].width[i] += 1
	}
	node.width[0] = 1
'''))
ref('sl-remove-flip', (SL, '''	if node := prevs[0].next[0]; node != nil && node.val == val {
		for i := range prevs {
			if i < len(node.next) {
				prevs[i].next[i] = node.next[i]
				prevs[i].width[i] += node.width[i] - 1
			} else {
				prevs[i].width[i]--
			}
		}
		s.length--
	} else {

	}
''', '''	node := prevs[0].next[0]
	if node == nil || node.val != val {
		return
	}
	for i, prev := range prevs {
		prev.width[i]--
		if i < len(node.next) {
			prev.next[i] = node.next[i]
			prev.width[i] += node.width[i]
		}
	}
	s.length--
'''))
ref('sl-select', (SL, '''	node := s.head
	pos := 0
	k++ // increment k because the head node is counted
	for i := s.maxLevel - 1; i >= 0; i-- {
		for pos+node.width[i] <= k {
			pos += node.width[i]
			node = node.next[i]
		}
	}
''', '''	node := s.head
	rest := k + 1
	for i := s.maxLevel - 1; i >= 0; i-- {
		for node.width[i] <= rest {
			rest -= node.width[i]
			node = node.next[i]
		}
	}
'''))
ref('sl-rank-local', (SL, '''		for node.next[i] != nil && node.next[i].val < val {
			rank += node.width[i]
			node = node.next[i]
		}''', '''		for next := node.next[i]; next != nil && next.val < val; next = node.next[i] {
			rank += node.width[i]
			node = next
		}'''))
ref('sl-getprevs', (SL, '''		next := prev.next[i]
		for next != nil && next.val < val {
			prev = next
			next = next.next[i]
		}
		s.prevs[i] = prev''', '''		for prev.next[i] != nil && prev.next[i].val < val {
			prev = prev.next[i]
		}
		s.prevs[i] = prev'''))
ref('sl-clear-new', (SL, '''	s.head.next = make([]*Node, s.maxLevel)
	s.head.width = make([]int, s.maxLevel)
	for i := 0; i < s.maxLevel; i++ {
		s.head.width[i] = 1
	}
	s.prevs = make([]*Node, s.maxLevel)
	s.length = 0''', '''	s.length = 0
	s.prevs = make([]*Node, s.maxLevel)
	width := make([]int, s.maxLevel)
	for i := range width {
		width[i] = 1
	}
	s.head.width = width
	s.head.next = make([]*Node, s.maxLevel)'''))
ref('sl-level', (SL, '''	level := 1
	for level < s.maxLevel && r < s.probs[level] {
		level++
	}
	return level''', '''	for level := 1; level < s.maxLevel; level++ {
		if r >= s.probs[level] {
			return level
		}
	}
	return s.maxLevel'''))
ref('sl-new-head', (SL, '''	for i := 0; i < s.maxLevel; i++ {
		s.head.width[i] = 1
	}
	s.prevs = make([]*Node, s.maxLevel)

	// generate''', '''	for i := range s.head.width {
		s.head.width[i] = 1
	}
	s.prevs = make([]*Node, s.maxLevel)

	// generate'''), (SL, '''	for i := 1; i <= s.maxLevel; i++ {
		p := math.Pow(s.p, float64(i-1))
		s.probs = append(s.probs, p)
	}''', '''	for i := 0; i < s.maxLevel; i++ {
		s.probs = append(s.probs, math.Pow(s.p, float64(i)))
	}'''))
ref('agg-helper', ('aggregate/simple_aggregate.go', '''			val, err := metric.Value()

			mux.Lock()
			if err != nil {
				errs = append(errs, err)
			} else {
				values[metric.String()] = val
			}
			mux.Unlock()''', '''			name := metric.String()
			val, err := metric.Value()

			mux.Lock()
			defer mux.Unlock()
			if err == nil {
				values[name] = val
			} else {
				errs = append(errs, err)
			}'''))
ref('agg-wgadd', ('aggregate/simple_aggregate.go', '''	var wg sync.WaitGroup

	for _, metric := range s.metrics {
		wg.Add(1)
		go func(metric stream.SimpleMetric) {
			defer wg.Done()
			metric.Clear()
		}(metric)
	}
''', '''	var wg sync.WaitGroup

	wg.Add(len(s.metrics))
	for i := range s.metrics {
		go func(metric stream.SimpleMetric) {
			metric.Clear()
			wg.Done()
		}(s.metrics[i])
	}
'''))
ref('agg-push-wrap', ('aggregate/simple_aggregate.go', '''			err := metric.Push(x)
			if err != nil {
				mux.Lock()
				result = multierror.Append(result, err)
				mux.Unlock()
			}
		}(metric)
	}

	wg.Wait()

	err := result.ErrorOrNil()
	if err != nil {
		return errors.Wrapf(err, "error pushing %f to metrics", x)
	}

	return nil''', '''			if err := metric.Push(x); err != nil {
				mux.Lock()
				defer mux.Unlock()
				result = multierror.Append(result, err)
			}
		}(metric)
	}

	wg.Wait()

	return errors.Wrapf(result.ErrorOrNil(), "error pushing %f to metrics", x)'''))
ref('sample-push', ('sample/sample.go', '''	r.count++
	if r.count <= r.Size {
		r.sample = append(r.sample, x)
	} else if index := rand.Intn(r.count); index < r.Size {
		r.sample[index] = x
	}''', '''	r.count++
	if r.count <= r.Size {
		r.sample = append(r.sample, x)
		return
	}

	index := rand.Intn(r.count)
	if index < r.Size {
		r.sample[index] = x
	}'''))
ref('sample-sample', ('sample/sample.go', '''	sample := make([]interface{}, len(r.sample))
	copy(sample, r.sample)
	return sample''', '''	return append([]interface{}{}, r.sample...)'''))
ref('binom', ('util/math/math.go', '''	result := 1
	for i := 1; i <= k; i++ {
		result = result * (n - k + i) / i
	}

	return result''', '''	result, base := 1, n-k
	for i := 1; i <= k; i++ {
		result *= base + i
		result /= i
	}

	return result'''))
ref('sign', ('util/math/math.go', '''	if n%2 == 0 {
		return 1
	}

	return -1''', '''	sign := 1
	if n%2 != 0 {
		sign = -1
	}

	return sign'''))
ref('iqr-value', ('quantile/iqr.go', '''	q25, err := i.quantile.unsafeValue(0.25)
	if err != nil {
		return 0, errors.Wrap(err, "error retrieving 1st quartile")
	}

	q75, err := i.quantile.unsafeValue(0.75)
	if err != nil {
		return 0, errors.Wrap(err, "error retrieving 3rd quartile")
	}

	return q75 - q25, nil''', '''	upper, err := i.quantile.unsafeValue(0.75)
	if err != nil {
		return 0, errors.Wrap(err, "error retrieving 3rd quartile")
	}

	lower, err := i.quantile.unsafeValue(0.25)
	if err != nil {
		return 0, errors.Wrap(err, "error retrieving 1st quartile")
	}

	return upper - lower, nil'''))
ref('median-options', ('quantile/median.go', '''	options = append(options[:len(options):len(options)], InterpolationOption(Midpoint))
	quantile, err''', '''	all := make([]Option, 0, len(options)+1)
	all = append(all, options...)
	options = append(all, InterpolationOption(Midpoint))
	quantile, err'''))
ref('impl-valid', ('quantile/impl.go', '''	switch i {
	case AVL, RedBlack, SkipList:
		return true
	default:
		return false
	}''', '''	return i >= AVL && i <= SkipList'''))
ref('option-impl', ('quantile/option.go', '''		var err error
		q.statistic, err = impl.init(options...)
		return errors.Wrap(err, "error setting Impl")''', '''		statistic, err := impl.init(options...)
		q.statistic = statistic
		if err != nil {
			return errors.Wrap(err, "error setting Impl")
		}
		return nil'''))
ref('string-join', ('moment/moment.go', '''	params := []string{
		fmt.Sprintf("k:%v", m.k),
		fmt.Sprintf("window:%v", m.window),
	}
	return fmt.Sprintf("%s_{%s}", name, strings.Join(params, ","))''', '''	params := fmt.Sprintf("k:%v,window:%v", m.k, m.window)
	return fmt.Sprintf("%s_{%s}", name, params)'''), ('moment/moment.go', '	"strings"\n', ''))
ref('string-const', ('minmax/min.go', '''	name := "minmax.Min"
	window := fmt.Sprintf("window:%v", m.window)
	return fmt.Sprintf("%s_{%s}", name, window)''', '''	return fmt.Sprintf("minmax.Min_{window:%d}", m.window)'''))
ref('struct-order', (AVL, '''	left   *Node
	right  *Node
	val    float64
	height int
	size   int
''', '''	val    float64
	size   int
	height int
	left   *Node
	right  *Node
'''))


def run(chk, name, edits):
    d = tempfile.mkdtemp(prefix='rf-', dir='/tmp')
    try:
        repo = os.path.join(d, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        for f, old, new in edits:
            p = os.path.join(repo, f)
            if not os.path.exists(p):
                return name, 'EDIT', 'no file ' + f
            s = open(p).read()
            if old not in s:
                return name, 'EDIT', '%s: text not found: %s' % (f, old[:60])
            open(p, 'w').write(s.replace(old, new))
        env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', CHECKER_FAST='1', GOTOOLCHAIN='local', VERIF_TIER='quick')
        b = subprocess.run(['go', 'build', './...'], cwd=repo, env=env, capture_output=True, text=True)
        if b.returncode:
            return name, 'BUILD', b.stderr
        try:
            r = subprocess.run([chk, '-repo', repo, '-verif', '/verif', '-all'], cwd=d, env=env, capture_output=True, text=True, errors='replace', timeout=800)
        except subprocess.TimeoutExpired:
            return name, 'TIMEOUT', ''
        out = [l[:420] for l in r.stdout.split('\n') if l.startswith('   ') or l.startswith('UNDECIDED')]
        bad = [l for l in out if not l.startswith('UNDECIDED')]
        und = [l for l in out if l.startswith('UNDECIDED')]
        t = r.stdout.strip().split('\n')[-1]
        return name, 'ALARM' if bad else 'undecided' if und else 'ok', t + '\n' + '\n'.join(bad[:6] + und[:4])
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    chk, want = sys.argv[1], sys.argv[2:]
    todo = [r for r in R if not want or any(w in r[0] for w in want)]
    n = {}
    with cf.ThreadPoolExecutor(7) as ex:
        for name, st, msg in ex.map(lambda r: run(chk, r[0], r[1]), todo):
            n[st] = n.get(st, 0) + 1
            print(st, name, msg if st != 'ok' else msg.split('\n')[0], flush=True)
    print(n)

"""More behaviour-preserving edits, as whole functions (see refactors.py)."""
import re, sys
import refactors as rf

REPO = '/repo/'
def fn(path, head):
    s = open(REPO + path).read()
    i = s.index('\nfunc ' + head) + 1
    j = s.index('\n}\n', i) + 3
    return s[i:j]
def F(path, head, new):
    """replaces the function whose declaration starts with head"""
    return (path, fn(path, head), new.lstrip('\n').rstrip() + '\n')
def S(path, old, new):
    return (path, old, new)
ref = rf.ref

ref('r2-mc-newcore-helpers', F('moment/core.go', 'NewCore(', '''
func NewCore(config *CoreConfig) (*Core, error) {
	cfg := setConfigDefaults(config)
	if err := validateConfig(cfg); err != nil {
		return nil, errors.Wrap(err, "error validating config")
	}
	return newCore(cfg), nil
}

func newCore(cfg *CoreConfig) *Core {
	size := 0
	for k := range cfg.Sums {
		if k+1 > size {
			size = k + 1
		}
	}
	return &Core{
		window: *cfg.Window,
		decay:  cfg.Decay,
		sums:   make([]float64, size),
		queue:  queue.NewRingBuffer(uint64(*cfg.Window)),
	}
}
'''))
ref('r2-mc-push-evict', F('moment/core.go', '(c *Core) UnsafePush(', '''
func (c *Core) UnsafePush(x float64) error {
	if c.window > 0 {
		if err := c.enqueue(x); err != nil {
			return err
		}
	}

	switch c.decay {
	case nil:
		c.add(x)
	default:
		c.addDecay(x)
	}
	return nil
}

// enqueue records x as the newest value, and drops the oldest one if the window is full.
func (c *Core) enqueue(x float64) error {
	full := c.queue.Len() >= uint64(c.window)
	if full {
		oldest, err := c.queue.Get()
		if err != nil {
			return errors.Wrap(err, "error popping item from queue")
		}
		c.remove(oldest.(float64))
	}

	if err := c.queue.Put(x); err != nil {
		return errors.Wrapf(err, "error pushing %f to queue", x)
	}
	return nil
}
'''))
ref('r2-mc-add-local', F('moment/core.go', '(c *Core) add(', '''
func (c *Core) add(x float64) {
	c.count++
	count := float64(c.count)
	delta := x - c.mean
	c.mean += delta / count
	for k := len(c.sums) - 1; k >= 2; k-- {
		c.sums[k] += c.shift(k, count, delta)
	}
}

func (c *Core) shift(k int, count, delta float64) float64 {
	power := float64(k)
	total := (count - 1) / math.Pow(count, power) *
		(math.Pow(count-1, power-1) + float64(mathutil.Sign(k))) *
		math.Pow(delta, power)
	for i := 1; i < k-1; i++ {
		total += float64(mathutil.Binom(k, i)*mathutil.Sign(i)) *
			math.Pow(delta/count, float64(i)) * c.sums[k-i]
	}
	return total
}
'''))
ref('r2-mc-sum', F('moment/core.go', '(c *Core) UnsafeSum(', '''
func (c *Core) UnsafeSum(k int) (float64, error) {
	switch {
	case c.count == 0:
		return 0, errors.New("no values seen yet")
	case 0 < k && k < len(c.sums):
		return c.sums[k], nil
	}
	return 0, errors.Errorf("%d is not a tracked power sum", k)
}
'''))
ref('r2-merge-loop-index', F('moment/config.go', 'MergeConfigs(', '''
func MergeConfigs(configs ...*CoreConfig) (*CoreConfig, error) {
	if len(configs) == 0 {
		return nil, errors.New("no configs available to merge")
	}
	if len(configs) == 1 {
		return configs[0], nil
	}

	merged := &CoreConfig{Sums: SumsConfig{}}
	for i := range configs {
		merged.Sums.add(configs[i].Sums)

		if w := configs[i].Window; w != nil {
			if merged.Window != nil && *merged.Window != *w {
				return nil, errors.New("configs have differing windows")
			}
			if merged.Window == nil {
				merged.Window = w
			}
		}

		if d := configs[i].Decay; d != nil {
			if merged.Decay != nil && *merged.Decay != *d {
				return nil, errors.New("configs have differing decays")
			}
			if merged.Decay == nil {
				merged.Decay = d
			}
		}
	}
	return merged, nil
}
'''))
ref('r2-validate-split', F('moment/config.go', 'validateConfig(', '''
func validateConfig(config *CoreConfig) error {
	if err := validateWindow(config.Window); err != nil {
		return err
	}
	if err := validateDecay(config.Decay, *config.Window); err != nil {
		return err
	}
	for k := range config.Sums {
		if k < 1 {
			return errors.Errorf("config has a nonpositive central moment of %d", k)
		}
	}
	return nil
}

func validateWindow(window *int) error {
	switch {
	case window == nil:
		return errors.New("config Window is not set")
	case *window < 0:
		return errors.Errorf("config has a negative window of %d", *window)
	}
	return nil
}

func validateDecay(decay *float64, window int) error {
	if decay == nil {
		return nil
	}
	if d := *decay; !(d > 0) || !(d < 1) {
		return errors.Errorf("config has a decay of %f, which is not in (0, 1)", d)
	}
	if window > 0 {
		return errors.New("config cannot have Decay set with a nonzero window")
	}
	return nil
}
'''))
ref('r2-kurtosis', S('moment/kurtosis.go', '\t"math"\n', ''), F('moment/kurtosis.go', '(k *Kurtosis) Value(', '''
func (k *Kurtosis) Value() (float64, error) {
	if !k.IsSetCore() {
		return 0, errors.New("Core is not set")
	}

	k.core.RLock()
	defer k.core.RUnlock()

	n := k.core.UnsafeCount()
	if n == 0 {
		return 0, errors.New("no values seen yet")
	}

	m2, err := k.variance.unsafeValue()
	if err != nil {
		return 0, errors.Wrap(err, "error retrieving 2nd moment")
	}
	m4, err := k.moment4.unsafeValue()
	if err != nil {
		return 0, errors.Wrap(err, "error retrieving 4th moment")
	}

	scale := float64(n-1) / float64(n)
	m2 *= scale
	m4 *= scale
	return m4/(m2*m2) - 3, nil
}
'''))
ref('r2-push-generic-helper', F('moment/kurtosis.go', '(k *Kurtosis) Push(', '''
func (k *Kurtosis) Push(x float64) error {
	return pushTo(k.core, x)
}

func pushTo(core *Core, x float64) error {
	if core == nil {
		return errors.New("Core is not set")
	}
	return errors.Wrap(core.Push(x), "error pushing to core")
}
'''))
ref('r2-jc-push', F('joint/core.go', '(c *Core) UnsafePush(', '''
func (c *Core) UnsafePush(xs ...float64) error {
	if vars := len(c.means); len(xs) != vars {
		return errors.Errorf("tried to push %d values when core is tracking %d variables", len(xs), vars)
	}

	if c.window != 0 {
		if err := c.slide(xs); err != nil {
			return err
		}
	}

	update := c.add
	if c.decay != nil {
		update = c.addDecay
	}
	return errors.Wrapf(update(xs...), "error adding %v to sums", xs)
}

func (c *Core) slide(xs []float64) error {
	if c.queue.Len() == uint64(c.window) {
		tail, err := c.queue.Get()
		if err != nil {
			return errors.Wrap(err, "error popping item from queue")
		}
		if err = c.remove(tail.([]float64)...); err != nil {
			return errors.Wrapf(err, "error removing %v from sums", xs)
		}
	}

	values := make([]float64, len(xs))
	copy(values, xs)
	if err := c.queue.Put(values); err != nil {
		return errors.Wrapf(err, "error pushing %v to queue", xs)
	}
	return nil
}
'''))
ref('r2-jc-add-method', F('joint/core.go', '(c *Core) add(', '''
func (c *Core) add(xs ...float64) error {
	c.count++
	count := float64(c.count)

	delta := make([]float64, len(c.means))
	for i, x := range xs {
		delta[i] = x - c.means[i]
		c.means[i] += delta[i] / count
	}

	for _, tuple := range c.tuples {
		err := iter(tuple, true, func(xs ...int) error {
			return c.addTerm(Tuple(xs), delta, count)
		})
		if err != nil {
			return errors.Wrapf(err, "error adding %v to sums for tuple %v", xs, tuple)
		}
	}

	for hash := range c.newSums {
		c.sums[hash] = c.newSums[hash]
	}

	return nil
}

func (c *Core) addTerm(a Tuple, delta []float64, count float64) error {
	hash := a.hash()
	c.newSums[hash] = 0
	return iter(a, false, func(xs ...int) error {
		b := Tuple(xs)

		deltaPow, err := pow(delta, b)
		if err != nil {
			return err
		}

		abs := b.abs()
		switch {
		case abs == 0:
			c.newSums[hash] += c.sums[hash]
		case b.eq(a):
			c.newSums[hash] += (count - 1) / math.Pow(count, float64(abs)) *
				(math.Pow(count-1, float64(abs-1)) + float64(mathutil.Sign(abs))) * deltaPow
		default:
			multinomial, err := multinom(a, b)
			if err != nil {
				return err
			}
			diff, err := sub(a, b)
			if err != nil {
				return err
			}
			c.newSums[hash] += float64(multinomial*mathutil.Sign(abs)) /
				math.Pow(count, float64(abs)) * deltaPow * c.sums[diff.hash()]
		}
		return nil
	})
}
'''))
ref('r2-jc-add-acc', S('joint/core.go', '''			c.newSums[hash] = 0
			return iter(a, false, func(xs ...int) error {
				b := Tuple(xs)

				deltaPow, err := pow(delta, b)
				if err != nil {
					return err
				}

				abs := b.abs()
				if abs == 0 {
					c.newSums[hash] += (1 - decay) * c.sums[hash]''', '''			c.newSums[hash] = (1 - decay) * c.sums[hash]
			return iter(a, false, func(xs ...int) error {
				b := Tuple(xs)

				deltaPow, err := pow(delta, b)
				if err != nil {
					return err
				}

				abs := b.abs()
				if abs == 0 {
					// the old sum is there already'''))
ref('r2-jc-newcore', S('joint/core.go', '\n\t"github.com/alexander-yu/stream"\n', '\n'), F('joint/core.go', 'NewCore(', '''
func NewCore(config *CoreConfig) (*Core, error) {
	config = setConfigDefaults(config)
	if err := validateConfig(config); err != nil {
		return nil, errors.Wrap(err, "error validating config")
	}

	vars := 0
	if config.Vars != nil {
		vars = *config.Vars
	} else {
		vars = len(config.Sums[0])
	}

	c := &Core{
		window:  *config.Window,
		decay:   config.Decay,
		tuples:  config.Sums,
		means:   make([]float64, vars),
		sums:    map[uint64]float64{},
		newSums: map[uint64]float64{},
		queue:   queue.NewRingBuffer(uint64(*config.Window)),
	}
	for _, tuple := range config.Sums {
		_ = iter(tuple, false, func(xs ...int) error {
			hash := Tuple(xs).hash()
			c.sums[hash] = 0
			c.newSums[hash] = 0
			return nil
		})
	}
	return c, nil
}
'''))
ref('r2-jc-clear', F('joint/core.go', '(c *Core) UnsafeClear(', '''
func (c *Core) UnsafeClear() {
	c.count = 0
	c.means = make([]float64, len(c.means))
	for hash := range c.sums {
		c.sums[hash] = 0
		c.newSums[hash] = 0
	}
	c.queue.Dispose()
	c.queue = queue.NewRingBuffer(uint64(c.window))
}
'''))
ref('r2-corr-guard', F('joint/corr.go', '(corr *Corr) Value(', '''
func (corr *Corr) Value() (float64, error) {
	if !corr.IsSetCore() {
		return 0, errors.New("Core is not set")
	}

	corr.core.RLock()
	defer corr.core.RUnlock()

	var sums [3]float64
	for i, tuple := range [3]Tuple{{1, 1}, {2, 0}, {0, 2}} {
		sum, err := corr.core.UnsafeSum(tuple...)
		if err != nil {
			return 0, errors.Wrapf(err, "error retrieving sum for %v", tuple)
		}
		sums[i] = sum
	}

	return sums[0] / math.Sqrt(sums[1]*sums[2]), nil
}
'''))
ref('r2-autocov-push', F('joint/autocov.go', '(a *Autocov) Push(', '''
func (a *Autocov) Push(x float64) error {
	if !a.IsSetCore() {
		return errors.New("Core is not set")
	}

	a.core.Lock()
	defer a.core.Unlock()

	if a.lag == 0 {
		return errors.Wrap(a.core.UnsafePush(x, x), "error pushing to core")
	}

	if uint64(a.lag) <= a.queue.Len() {
		if err := a.pushLagged(x); err != nil {
			return err
		}
	}

	if err := a.queue.Put(x); err != nil {
		return errors.Wrapf(err, "error pushing %f to lag queue", x)
	}
	return nil
}

func (a *Autocov) pushLagged(x float64) error {
	tail, err := a.queue.Get()
	if err != nil {
		return errors.Wrap(err, "error popping item from lag queue")
	}
	return errors.Wrap(a.core.UnsafePush(x, tail.(float64)), "error pushing to core")
}
'''))
ref('r2-joint-merge', F('joint/config.go', 'simplifySums(', '''
func simplifySums(sums SumsConfig) SumsConfig {
	kept := SumsConfig{}
	for i, m := range sums {
		if !covered(m, sums[:i]) {
			kept = append(kept, m)
		}
	}
	return kept
}

// covered returns whether a Tuple is less than or equal to any of the others.
func covered(m Tuple, others SumsConfig) bool {
	for _, n := range others {
		if m.leq(n) {
			return true
		}
	}
	return false
}
'''))
ref('r2-quantile-value', F('quantile/quantile.go', '(q *Quantile) unsafeValue(', '''
func (q *Quantile) unsafeValue(quantile float64) (float64, error) {
	size := q.statistic.Size()
	if size == 0 {
		return 0, errors.New("no values seen yet")
	}

	whole, delta := math.Modf(quantile * float64(size-1))
	idx := int(whole)
	at := func(i int) float64 {
		return q.statistic.Select(i).Value()
	}
	if delta == 0 {
		return at(idx), nil
	}

	switch q.interpolation {
	case Linear:
		return (1-delta)*at(idx) + delta*at(idx+1), nil
	case Lower:
		return at(idx), nil
	case Higher:
		return at(idx + 1), nil
	case Nearest:
		if delta < 0.5 || delta == 0.5 && idx%2 == 0 {
			return at(idx), nil
		}
		return at(idx + 1), nil
	default:
		return (at(idx) + at(idx+1)) / 2, nil
	}
}
'''))
ref('r2-quantile-push', F('quantile/quantile.go', '(q *Quantile) Push(', '''
func (q *Quantile) Push(x float64) error {
	q.mux.Lock()
	defer q.mux.Unlock()

	if q.window == 0 {
		q.statistic.Add(x)
		return nil
	}

	if q.queue.Len() == uint64(q.window) {
		val, err := q.queue.Get()
		if err != nil {
			return errors.Wrap(err, "error popping item from queue")
		}
		q.statistic.Remove(val.(float64))
	}
	if err := q.queue.Put(x); err != nil {
		return errors.Wrapf(err, "error pushing %f to queue", x)
	}
	q.statistic.Add(x)
	return nil
}
'''))
ref('r2-hm-push', F('quantile/heap_median.go', '(m *HeapMedian) Push(', '''
func (m *HeapMedian) Push(x float64) error {
	m.mux.Lock()
	defer m.mux.Unlock()

	item := &heap.Item{}
	toLow := m.lowHeap.Len() == 0 || x <= m.lowHeap.Peek()
	if m.window > 0 && m.queue.Len() == uint64(m.window) {
		tail, err := m.queue.Get()
		if err != nil {
			return errors.Wrap(err, "error popping item from queue")
		}
		item = tail.(*heap.Item)
		m.heapOf(item).Remove(item)
	}

	item.Val = x
	target := m.highHeap
	if toLow {
		target = m.lowHeap
	}
	heapops.Push(target, item)
	m.rebalance()

	if m.window == 0 {
		return nil
	}
	if err := m.queue.Put(item); err != nil {
		return errors.Wrapf(err, "error pushing %f to queue", x)
	}
	return nil
}

func (m *HeapMedian) heapOf(item *heap.Item) *heap.Heap {
	if item.HeapID == m.lowHeap.ID {
		return m.lowHeap
	}
	return m.highHeap
}
'''))
ref('r2-hm-value', F('quantile/heap_median.go', '(m *HeapMedian) Value(', '''
func (m *HeapMedian) Value() (float64, error) {
	m.mux.Lock()
	defer m.mux.Unlock()

	low, high := m.lowHeap.Len(), m.highHeap.Len()
	if low == 0 && high == 0 {
		return 0, errors.New("no values seen yet")
	}
	if low > high {
		return m.lowHeap.Peek(), nil
	}
	if high > low {
		return m.highHeap.Peek(), nil
	}
	return 0.5*m.lowHeap.Peek() + 0.5*m.highHeap.Peek(), nil
}
'''))
ref('r2-heap-values', F('quantile/heap/heap.go', '(h *Heap) Values(', '''
func (h *Heap) Values() []float64 {
	vals := make([]float64, len(h.items))
	for i, item := range h.items {
		vals[i] = item.Val
	}
	return vals
}
'''), F('quantile/heap/heap.go', '(h *Heap) Swap(', '''
func (h *Heap) Swap(i, j int) {
	a, b := h.items[i], h.items[j]
	h.items[i], h.items[j] = b, a
	a.index, b.index = j, i
}
'''))
ref('r2-min-push', F('minmax/min.go', '(m *Min) Push(', '''
func (m *Min) Push(x float64) error {
	m.mux.Lock()
	defer m.mux.Unlock()

	if m.window == 0 {
		m.count++
		m.min = math.Min(x, m.min)
		return nil
	}

	if m.queue.Len() == uint64(m.window) {
		if err := m.evict(); err != nil {
			return err
		}
	}
	if err := m.queue.Put(&x); err != nil {
		return errors.Wrapf(err, "error pushing %f to queue", x)
	}
	m.count++

	for m.deque.Len() != 0 && x < m.deque.Back() {
		m.deque.PopBack()
	}
	m.deque.PushBack(x)
	return nil
}

func (m *Min) evict() error {
	val, err := m.queue.Get()
	if err != nil {
		return errors.Wrap(err, "error popping item from queue")
	}
	m.count--
	if old := *val.(*float64); m.deque.Front() == old {
		m.deque.PopFront()
	}
	return nil
}
'''))
ref('r2-min-queue-value', S('minmax/min.go', 'm.queue.Put(&x)', 'm.queue.Put(x)'), S('minmax/min.go', '*val.(*float64)', 'val.(float64)'))
ref('r2-min-if', F('minmax/min.go', '(m *Min) Value(', '''
func (m *Min) Value() (float64, error) {
	m.mux.Lock()
	defer m.mux.Unlock()

	if m.count == 0 {
		return 0, errors.New("no values seen yet")
	}
	value := m.min
	if m.window != 0 {
		value = m.deque.Front()
	}
	return value, nil
}
'''), S('minmax/min.go', 'm.min = math.Min(m.min, x)', 'if m.min = math.Min(x, m.min); false {\n\t\t\treturn nil\n\t\t}'))
ref('r2-sample', F('sample/sample.go', '(r *Reservoir) Push(', '''
func (r *Reservoir) Push(x interface{}) {
	r.mux.Lock()
	defer r.mux.Unlock()

	r.count++
	if r.count > r.Size {
		index := rand.Intn(r.count)
		if index >= r.Size {
			return
		}
		r.sample[index] = x
		return
	}
	r.sample = append(r.sample, x)
}
'''), F('sample/sample.go', '(r *Reservoir) Sample(', '''
func (r *Reservoir) Sample() []interface{} {
	r.mux.Lock()
	defer r.mux.Unlock()
	return append(make([]interface{}, 0, len(r.sample)), r.sample...)
}
'''))
ref('r2-avl-remove', F('quantile/ost/avl/node.go', '(n *Node) remove(', '''
func (n *Node) remove(val float64) *Node {
	if n == nil {
		return nil
	}

	switch {
	case val < n.val:
		n.left = n.left.remove(val)
		return n.update().balance()
	case val > n.val:
		n.right = n.right.remove(val)
		return n.update().balance()
	case n.left == nil:
		return n.right
	case n.right == nil:
		return n.left
	}

	successor := n.right.min()
	successor.right = n.right.removeMin()
	successor.left = n.left
	return successor.update().balance()
}

// update recomputes the size and height from the children.
func (n *Node) update() *Node {
	n.size = 1 + n.left.Size() + n.right.Size()
	n.height = 1 + max(n.left.Height(), n.right.Height())
	return n
}
'''))
ref('r2-avl-balance', F('quantile/ost/avl/node.go', '(n *Node) balance(', '''
func (n *Node) balance() *Node {
	switch diff := n.heightDiff(); {
	case diff > 1:
		if n.left.heightDiff() < 0 {
			n.left = n.left.rotateLeft()
		}
		return n.rotateRight()
	case diff < -1:
		if n.right.heightDiff() > 0 {
			n.right = n.right.rotateRight()
		}
		return n.rotateLeft()
	default:
		return n
	}
}
'''))
ref('r2-avl-rank', F('quantile/ost/avl/node.go', '(n *Node) Rank(', '''
func (n *Node) Rank(val float64) int {
	if n == nil {
		return 0
	}
	if val > n.val {
		return n.left.Size() + 1 + n.right.Rank(val)
	}
	return n.left.Rank(val)
}
'''))
ref('r2-rb-balance', F('quantile/ost/rb/node.go', '(n *Node) addBalance(', '''
func (n *Node) addBalance() *Node {
	if n.right.isRed() && !n.left.isRed() {
		n = n.rotateLeft()
	}
	return n.fixLeft()
}

func (n *Node) isRed() bool {
	return n != nil && n.color == Red
}

// fixLeft repairs two red nodes in a row to the left, or two red children.
func (n *Node) fixLeft() *Node {
	if n.left.isRed() && n.left.left.isRed() {
		n = n.rotateRight()
	}
	if n.left.isRed() && n.right.isRed() {
		n.flipColors()
	}
	n.size = 1 + n.left.Size() + n.right.Size()
	return n
}
'''), F('quantile/ost/rb/node.go', '(n *Node) removeBalance(', '''
func (n *Node) removeBalance() *Node {
	if n.right.isRed() {
		n = n.rotateLeft()
	}
	return n.fixLeft()
}
'''))
ref('r2-rb-select', F('quantile/ost/rb/node.go', '(n *Node) Select(', '''
func (n *Node) Select(k int) order.Node {
	for n != nil {
		size := n.left.Size()
		if k == size {
			return n
		}
		if k < size {
			n = n.left
		} else {
			n = n.right
			k -= size + 1
		}
	}
	return nil
}
'''))
ref('r2-sl-remove', F('quantile/skiplist/skiplist.go', '(s *SkipList) Remove(', '''
func (s *SkipList) Remove(val float64) {
	prevs := s.getPrevs(val)
	node := prevs[0].next[0]
	if node == nil || node.val != val {
		return
	}

	for i, prev := range prevs {
		prev.width[i]--
		if i < len(node.next) {
			prev.next[i] = node.next[i]
			prev.width[i] += node.width[i]
		}
	}
	s.length--
}
'''))
ref('r2-sl-new', F('quantile/skiplist/skiplist.go', '(s *SkipList) Clear(', '''
func (s *SkipList) Clear() {
	s.head.next = make([]*Node, s.maxLevel)
	s.head.width = make([]int, s.maxLevel)
	for i := range s.head.width {
		s.head.width[i] = 1
	}
	s.prevs = make([]*Node, s.maxLevel)
	s.length = 0
}
'''))
ref('r2-agg-values', F('aggregate/simple_aggregate.go', '(s *SimpleAggregateMetric) Values(', '''
func (s *SimpleAggregateMetric) Values() (map[string]float64, error) {
	s.mux.Lock()
	defer s.mux.Unlock()
	var (
		values = make(map[string]float64, len(s.metrics))
		result *multierror.Error
		mux    sync.Mutex
		wg     sync.WaitGroup
	)

	wg.Add(len(s.metrics))
	for _, metric := range s.metrics {
		metric := metric
		go func() {
			defer wg.Done()
			val, err := metric.Value()
			mux.Lock()
			defer mux.Unlock()
			if err != nil {
				result = multierror.Append(result, err)
				return
			}
			values[metric.String()] = val
		}()
	}
	wg.Wait()

	if err := result.ErrorOrNil(); err != nil {
		return nil, errors.Wrap(err, "error retrieving values from metrics")
	}
	return values, nil
}
'''))
ref('r2-agg-foreach', F('aggregate/simple_aggregate.go', '(s *SimpleAggregateMetric) Push(', '''
func (s *SimpleAggregateMetric) Push(x float64) error {
	s.mux.Lock()
	defer s.mux.Unlock()
	var (
		result *multierror.Error
		mux    sync.Mutex
	)

	s.each(func(metric stream.SimpleMetric) {
		if err := metric.Push(x); err != nil {
			mux.Lock()
			defer mux.Unlock()
			result = multierror.Append(result, err)
		}
	})

	return errors.Wrapf(result.ErrorOrNil(), "error pushing %f to metrics", x)
}

// each calls f for every metric concurrently, and waits for the calls.
func (s *SimpleAggregateMetric) each(f func(stream.SimpleMetric)) {
	var wg sync.WaitGroup
	for _, metric := range s.metrics {
		wg.Add(1)
		go func(metric stream.SimpleMetric) {
			defer wg.Done()
			f(metric)
		}(metric)
	}
	wg.Wait()
}
'''), F('aggregate/simple_aggregate.go', '(s *SimpleAggregateMetric) Clear(', '''
func (s *SimpleAggregateMetric) Clear() {
	s.mux.Lock()
	defer s.mux.Unlock()
	s.each(stream.SimpleMetric.Clear)
}
'''))
ref('r2-agg-errs-slice', F('aggregate/simple_aggregate.go', '(s *SimpleAggregateMetric) Push(', '''
func (s *SimpleAggregateMetric) Push(x float64) error {
	s.mux.Lock()
	defer s.mux.Unlock()
	errs := make([]error, len(s.metrics))
	var wg sync.WaitGroup
	for i := range s.metrics {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			errs[i] = s.metrics[i].Push(x)
		}(i)
	}
	wg.Wait()

	var result *multierror.Error
	for _, err := range errs {
		if err != nil {
			result = multierror.Append(result, err)
		}
	}
	if err := result.ErrorOrNil(); err != nil {
		return errors.Wrapf(err, "error pushing %f to metrics", x)
	}
	return nil
}
'''))
ref('r2-iqr', F('quantile/iqr.go', '(i *IQR) Value(', '''
func (i *IQR) Value() (float64, error) {
	i.quantile.RLock()
	defer i.quantile.RUnlock()

	lo, err := i.quartile(0.25, "1st")
	if err != nil {
		return 0, err
	}
	hi, err := i.quartile(0.75, "3rd")
	if err != nil {
		return 0, err
	}
	return hi - lo, nil
}

func (i *IQR) quartile(q float64, name string) (float64, error) {
	value, err := i.quantile.unsafeValue(q)
	if err != nil {
		return 0, errors.Wrapf(err, "error retrieving %s quartile", name)
	}
	return value, nil
}
'''))
ref('r2-options', F('quantile/iqr.go', 'NewIQR(', '''
func NewIQR(window int, options ...Option) (*IQR, error) {
	opts := make([]Option, 0, len(options)+1)
	opts = append(opts, options...)
	opts = append(opts, InterpolationOption(Midpoint))
	quantile, err := New(window, opts...)
	if err != nil {
		return nil, errors.Wrap(err, "error creating Quantile")
	}
	return &IQR{quantile}, nil
}
'''))
ref('r2-quantile-new', F('quantile/quantile.go', 'New(', '''
func New(window int, options ...Option) (*Quantile, error) {
	if window < 0 {
		return nil, errors.Errorf("attempted to set negative window of %d", window)
	}

	statistic, err := AVL.init()
	if err != nil {
		return nil, errors.Wrap(err, "error instantiating default AVL order.Statistic")
	}

	q := new(Quantile)
	q.window = window
	q.interpolation = Linear
	q.statistic = statistic
	q.queue = queue.NewRingBuffer(uint64(window))
	for i := 0; i < len(options); i++ {
		if err := options[i](q); err != nil {
			return nil, errors.Wrap(err, "error setting option")
		}
	}
	return q, nil
}
'''))
ref('r2-binom', F('util/math/math.go', 'Binom(', '''
func Binom(n, k int) int {
	if n-k < k {
		k = n - k
	}

	result := 1
	for i := 0; i < k; i++ {
		result = result * (n - k + i + 1) / (i + 1)
	}
	return result
}
'''), F('util/math/math.go', 'Sign(', '''
func Sign(n int) int {
	if n%2 != 0 {
		return -1
	}
	return 1
}
'''))
ref('r2-string-builder', F('moment/ewmmoment.go', '(m *EWMMoment) String(', '''
func (m *EWMMoment) String() string {
	return fmt.Sprintf("moment.EWMMoment_{k:%d,decay:%v}", m.k, m.decay)
}
'''), S('moment/ewmmoment.go', '\t"strings"\n', ''))
ref('r2-config-clone', F('moment/kurtosis.go', '(k *Kurtosis) Config(', '''
func (k *Kurtosis) Config() *CoreConfig {
	return &CoreConfig{
		Sums:   SumsConfig{2: true, 4: true},
		Window: stream.IntPtr(*k.config.Window),
	}
}
'''))
ref('r2-locks-explicit', F('moment/core.go', '(c *Core) Push(', '''
func (c *Core) Push(x float64) error {
	c.mux.Lock()
	err := c.UnsafePush(x)
	c.mux.Unlock()
	return err
}
'''), F('moment/core.go', '(c *Core) Sum(', '''
func (c *Core) Sum(k int) (sum float64, err error) {
	c.withRLock(func() {
		sum, err = c.UnsafeSum(k)
	})
	return
}

func (c *Core) withRLock(f func()) {
	c.mux.RLock()
	defer c.mux.RUnlock()
	f()
}
'''))
ref('r2-tuple-iter', F('joint/tuple.go', '(m Tuple) eq(', '''
func (m Tuple) eq(n Tuple) bool {
	return m.leq(n) && n.leq(m)
}
'''))
ref('r2-tuple-hash', F('joint/tuple.go', '(m Tuple) hash(', '''
func (m Tuple) hash() uint64 {
	result := 0
	for _, e := range m {
		result = e + result*31
	}
	return uint64(result)
}
'''), F('joint/tuple.go', 'multinom(', '''
func multinom(m, n Tuple) (int, error) {
	if len(m) != len(n) {
		return 0, errors.Errorf("Tuples have different lengths: %d != %d", len(m), len(n))
	}

	result := 1
	for i, e := range m {
		result = mathutil.Binom(e, n[i]) * result
	}
	return result, nil
}
'''))

def main(prefix):
    chk, want = sys.argv[1], sys.argv[2:]
    import concurrent.futures as cf
    todo = [r for r in rf.R if r[0].startswith(prefix) and (not want or any(w in r[0] for w in want))]
    n = {}
    with cf.ThreadPoolExecutor(6) as ex:
        for name, st, msg in ex.map(lambda r: rf.run(chk, r[0], r[1]), todo):
            n[st] = n.get(st, 0) + 1
            print(st, name, msg if st != 'ok' else msg.split('\n')[0], flush=True)
    print(n)

if __name__ == '__main__':
    main('r2-')

"""Behaviour-preserving edits of the smaller functions and of whole idioms (see refactors.py)."""
import refactors as rf, refactors2 as r2
F, S, ref = r2.F, r2.S, rf.ref

# --- trees
ref('r4-avl-update-helper', F('quantile/ost/avl/node.go', '(n *Node) add(', '''
func (n *Node) add(val float64) *Node {
	if n == nil {
		return NewNode(val)
	}
	if n.val < val {
		n.right = n.right.add(val)
	} else if n.val >= val {
		n.left = n.left.add(val)
	} else {
		n.right = n.right.add(val)
	}
	n.refresh()
	return n.balance()
}

func (n *Node) refresh() {
	n.height = 1 + max(n.left.Height(), n.right.Height())
	n.size = 1 + n.left.Size() + n.right.Size()
}
'''), F('quantile/ost/avl/node.go', '(n *Node) rotateLeft(', '''
func (n *Node) rotateLeft() *Node {
	m := n.right
	n.right, m.left = m.left, n
	n.refresh()
	m.refresh()
	return m
}
'''), F('quantile/ost/avl/node.go', '(n *Node) rotateRight(', '''
func (n *Node) rotateRight() *Node {
	m := n.left
	n.left, m.right = m.right, n
	n.refresh()
	m.refresh()
	return m
}
'''))
ref('r4-avl-remove-nested', F('quantile/ost/avl/node.go', '(n *Node) remove(', '''
func (n *Node) remove(val float64) *Node {
	if n == nil {
		return nil
	}

	switch {
	case val < n.val:
		n.left = n.left.remove(val)
	case val > n.val:
		n.right = n.right.remove(val)
	case n.left == nil:
		return n.right
	case n.right == nil:
		return n.left
	default:
		successor := n.right.min()
		successor.right = n.right.removeMin()
		successor.left = n.left
		n = successor
	}

	n.size = 1 + n.left.Size() + n.right.Size()
	n.height = 1 + max(n.left.Height(), n.right.Height())
	return n.balance()
}
'''))
ref('r4-avl-min-iter', F('quantile/ost/avl/node.go', '(n *Node) min(', '''
func (n *Node) min() *Node {
	m := n
	for m.left != nil {
		m = m.left
	}
	return m
}
'''))
ref('r4-avl-balance-switch', F('quantile/ost/avl/node.go', '(n *Node) balance(', '''
func (n *Node) balance() *Node {
	switch diff := n.heightDiff(); {
	case diff > 1:
		if n.left.heightDiff() < 0 {
			n.left = n.left.rotateLeft()
		}
		return n.rotateRight()
	case diff < -1:
		if n.right.heightDiff() > 0 {
			n.right = n.right.rotateRight()
		}
		return n.rotateLeft()
	}
	return n
}
'''))
ref('r4-avl-clear', F('quantile/ost/avl/tree.go', '(t *Tree) Clear(', '''
func (t *Tree) Clear() {
	t.root = nil
}
'''), F('quantile/ost/rb/tree.go', '(t *Tree) Clear(', '''
func (t *Tree) Clear() {
	t.root = nil
}
'''))
ref('r4-tree-select-iter', F('quantile/ost/rb/node.go', '(n *Node) Select(', '''
func (n *Node) Select(k int) order.Node {
	for n != nil {
		size := n.left.Size()
		switch {
		case k < size:
			n = n.left
		case k > size:
			n, k = n.right, k-size-1
		default:
			return n
		}
	}
	return nil
}
'''))
ref('r4-tree-rank-iter', F('quantile/ost/rb/node.go', '(n *Node) Rank(', '''
func (n *Node) Rank(val float64) int {
	rank := 0
	for n != nil {
		if val > n.val {
			rank += 1 + n.left.Size()
			n = n.right
		} else {
			n = n.left
		}
	}
	return rank
}
'''))
ref('r4-tree-rank-short', F('quantile/ost/rb/node.go', '(n *Node) Rank(', '''
func (n *Node) Rank(val float64) int {
	switch {
	case n == nil:
		return 0
	case val > n.val:
		return n.left.Size() + 1 + n.right.Rank(val)
	default:
		return n.left.Rank(val)
	}
}
'''))
ref('r4-rb-remove-helper', S('quantile/ost/rb/node.go', '''		if n.left.Color() == Black && n.left.left.Color() == Black {
			n = n.moveRedLeft()
		}
		n.left = n.left.remove(val)
''', '''		if isBlackTwice(n.left) {
			n = n.moveRedLeft()
		}
		n.left = n.left.remove(val)
'''), S('quantile/ost/rb/node.go', '''		if n.right.Color() == Black && n.right.left.Color() == Black {
''', '''		if isBlackTwice(n.right) {
'''), S('quantile/ost/rb/node.go', '''	if n.left.Color() == Black && n.left.left.Color() == Black {
		n = n.moveRedLeft()
	}

	n.left = n.left.removeMin()
''', '''	if isBlackTwice(n.left) {
		n = n.moveRedLeft()
	}

	n.left = n.left.removeMin()
'''), S('quantile/ost/rb/node.go', '''func (n *Node) removeMin() *Node {''', '''func isBlackTwice(n *Node) bool {
	return n.Color() == Black && n.left.Color() == Black
}

func (n *Node) removeMin() *Node {'''))
ref('r4-rb-balance-shared', F('quantile/ost/rb/node.go', '(n *Node) addBalance(', '''
func (n *Node) addBalance() *Node {
	if n.left.Color() == Black && n.right.Color() == Red {
		n = n.rotateLeft()
	}
	return n.fix()
}

func (n *Node) fix() *Node {
	if n.left.Color() == Red && n.left.left.Color() == Red {
		n = n.rotateRight()
	}
	if n.left.Color() == Red && n.right.Color() == Red {
		n.flipColors()
	}

	n.size = 1 + n.left.Size() + n.right.Size()
	return n
}
'''), F('quantile/ost/rb/node.go', '(n *Node) removeBalance(', '''
func (n *Node) removeBalance() *Node {
	if n.right.Color() == Red {
		n = n.rotateLeft()
	}
	return n.fix()
}
'''))
ref('r4-rb-rotate-size', F('quantile/ost/rb/node.go', '(n *Node) rotateLeft(', '''
func (n *Node) rotateLeft() *Node {
	x := n.right
	x.size, x.color = n.size, n.color
	n.right = x.left
	n.size = n.left.Size() + 1 + n.right.Size()
	n.color = Red
	x.left = n
	return x
}
'''))
ref('r4-rb-contains-for', F('quantile/ost/rb/node.go', '(n *Node) contains(', '''
func (n *Node) contains(val float64) bool {
	curr := n
	for curr != nil && curr.val != val {
		if val < curr.val {
			curr = curr.left
		} else {
			curr = curr.right
		}
	}
	return curr != nil
}
'''))
ref('r4-rb-move-early', F('quantile/ost/rb/node.go', '(n *Node) moveRedLeft(', '''
func (n *Node) moveRedLeft() *Node {
	n.flipColors()
	if n.right.left.Color() != Red {
		return n
	}
	n.right = n.right.rotateRight()
	root := n.rotateLeft()
	root.flipColors()
	return root
}
'''))
ref('r4-treestring', F('quantile/ost/rb/node.go', '(n *Node) treeString(', '''
func (n *Node) treeString(prefix string, result string, isTail bool) string {
	above, corner, below := "    ", "┌── ", "│   "
	if isTail {
		above, corner, below = "│   ", "└── ", "    "
	}
	if n.right != nil {
		result = n.right.treeString(prefix+above, result, false)
	}
	result = fmt.Sprintf("%s%s%s%f\\n", result, prefix, corner, n.val)
	if n.left != nil {
		result = n.left.treeString(prefix+below, result, true)
	}
	return result
}
'''))

# --- skip list, heap
ref('r4-sl-string-builder', F('quantile/skiplist/skiplist.go', '(s *SkipList) String(', '''
func (s *SkipList) String() string {
	var b strings.Builder
	for i := s.maxLevel - 1; i >= 0; i-- {
		for node := s.head; node != nil; node = node.next[i] {
			b.WriteString(node.string())
			b.WriteString(strings.Repeat("-", node.width[i]))
		}
		b.WriteString("tail\\n")
	}
	return b.String()
}
'''))
ref('r4-sl-reset-helper', F('quantile/skiplist/skiplist.go', '(s *SkipList) Clear(', '''
func (s *SkipList) Clear() {
	s.length = 0
	s.prevs = make([]*Node, s.maxLevel)
	s.head.next, s.head.width = make([]*Node, s.maxLevel), ones(s.maxLevel)
}

func ones(n int) []int {
	result := make([]int, n)
	for i := range result {
		result[i] = 1
	}
	return result
}
'''))
ref('r4-sl-level-for', F('quantile/skiplist/skiplist.go', '(s *SkipList) randLevel(', '''
func (s *SkipList) randLevel() int {
	r := s.rand.Float64()
	for level := 1; level < s.maxLevel; level++ {
		if r >= s.probs[level] {
			return level
		}
	}
	return max(s.maxLevel, 1)
}

func max(x, y int) int {
	if x > y {
		return x
	}
	return y
}
'''))
ref('r4-sl-remove-find', F('quantile/skiplist/skiplist.go', '(s *SkipList) Remove(', '''
func (s *SkipList) Remove(val float64) {
	prevs := s.getPrevs(val)
	node := prevs[0].next[0]
	if node == nil || node.val != val {
		return
	}

	for i, prev := range prevs {
		prev.width[i]--
		if i < len(node.next) {
			prev.next[i] = node.next[i]
			prev.width[i] += node.width[i]
		}
	}
	s.length--
}
'''))
ref('r4-sl-add-one-loop', S('quantile/skiplist/skiplist.go', '''	for i := 1; i < s.maxLevel; i++ {
		prevs[i].width[i]++
	}
	for i := 1; i < level; i++ {
		for curr := node; curr != node.next[i]; curr = curr.next[i-1] {
			node.width[i] += curr.width[i-1]
		}
		prevs[i].width[i] -= node.width[i]
	}
''', '''	for i := 1; i < level; i++ {
		width := 0
		for curr := node; curr != node.next[i]; curr = curr.next[i-1] {
			width += curr.width[i-1]
		}
		node.width[i] = width
		prevs[i].width[i] -= width
	}
	for i, prev := range prevs {
		if i > 0 {
			prev.width[i]++
		}
	}
'''))
ref('r4-heap-remove-update', F('quantile/heap/heap.go', '(h *Heap) Remove(', '''
func (h *Heap) Remove(item *Item) {
	index := item.index
	heapops.Remove(h, index)
}
'''), F('quantile/heap/heap.go', '(h *Heap) Swap(', '''
func (h *Heap) Swap(i, j int) {
	x, y := h.items[i], h.items[j]
	x.index, y.index = j, i
	h.items[i], h.items[j] = y, x
}
'''), F('quantile/heap/heap.go', '(h *Heap) Pop(', '''
func (h *Heap) Pop() interface{} {
	last := len(h.items) - 1
	item := h.items[last]
	h.items = h.items[:last]
	item.index = -1
	return item
}
'''))
ref('r4-hm-side', F('quantile/heap_median.go', '(m *HeapMedian) rebalance(', '''
func (m *HeapMedian) rebalance() {
	switch diff := m.lowHeap.Len() - m.highHeap.Len(); {
	case diff > 1:
		move(m.lowHeap, m.highHeap)
	case diff < -1:
		move(m.highHeap, m.lowHeap)
	}
}

func move(from, to *heap.Heap) {
	heapops.Push(to, heapops.Pop(from))
}
'''))
ref('r4-hm-value-size', F('quantile/heap_median.go', '(m *HeapMedian) Value(', '''
func (m *HeapMedian) Value() (float64, error) {
	m.mux.Lock()
	defer m.mux.Unlock()

	low, high := m.lowHeap.Len(), m.highHeap.Len()
	switch {
	case low == 0 && high == 0:
		return 0, errors.New("no values seen yet")
	case low > high:
		return m.lowHeap.Peek(), nil
	case low < high:
		return m.highHeap.Peek(), nil
	}
	return (m.highHeap.Peek() + m.lowHeap.Peek()) / 2, nil
}
'''))
ref('r4-hm-global', F('quantile/heap_median.go', 'NewGlobalHeapMedian(', '''
func NewGlobalHeapMedian() *HeapMedian {
	return newHeapMedian(0)
}

func newHeapMedian(window int) *HeapMedian {
	m := &HeapMedian{window: window}
	m.reset()
	return m
}

func (m *HeapMedian) reset() {
	m.queue = queue.NewRingBuffer(uint64(m.window))
	m.lowHeap = heap.New("low", []float64{}, fmax)
	m.highHeap = heap.New("high", []float64{}, fmin)
}
'''), F('quantile/heap_median.go', 'NewHeapMedian(', '''
func NewHeapMedian(window int) (*HeapMedian, error) {
	if window < 0 {
		return nil, errors.Errorf("%d is a negative window", window)
	}

	return newHeapMedian(window), nil
}
'''), F('quantile/heap_median.go', '(m *HeapMedian) Clear(', '''
func (m *HeapMedian) Clear() {
	m.mux.Lock()
	defer m.mux.Unlock()
	m.queue.Dispose()
	m.reset()
}
'''))

# --- min and max
ref('r4-minmax-evict', F('minmax/min.go', '(m *Min) Push(', '''
func (m *Min) Push(x float64) error {
	m.mux.Lock()
	defer m.mux.Unlock()

	if m.window == 0 {
		m.count++
		m.min = math.Min(m.min, x)
		return nil
	}

	if m.queue.Len() == uint64(m.window) {
		if err := m.evict(); err != nil {
			return err
		}
	}
	if err := m.queue.Put(&x); err != nil {
		return errors.Wrapf(err, "error pushing %f to queue", x)
	}
	m.count++
	for m.deque.Len() > 0 && x < m.deque.Back() {
		m.deque.PopBack()
	}
	m.deque.PushBack(x)
	return nil
}

func (m *Min) evict() error {
	val, err := m.queue.Get()
	if err != nil {
		return errors.Wrap(err, "error popping item from queue")
	}

	m.count--
	if oldest := *val.(*float64); m.deque.Front() == oldest {
		m.deque.PopFront()
	}
	return nil
}
'''))
ref('r4-max-value', F('minmax/max.go', '(m *Max) Value(', '''
func (m *Max) Value() (float64, error) {
	m.mux.Lock()
	defer m.mux.Unlock()

	if m.count == 0 {
		return 0, errors.New("no values seen yet")
	}
	if m.window != 0 {
		return m.deque.Front(), nil
	}
	return m.max, nil
}
'''), F('minmax/max.go', 'NewGlobalMax(', '''
func NewGlobalMax() *Max {
	m, _ := NewMax(0)
	return m
}
'''))
ref('r4-max-clear', F('minmax/max.go', '(m *Max) Clear(', '''
func (m *Max) Clear() {
	m.mux.Lock()
	defer m.mux.Unlock()

	m.queue.Dispose()
	m.queue, m.deque = queue.NewRingBuffer(uint64(m.window)), &deque.Deque[float64]{}
	m.count, m.max = 0, math.Inf(-1)
}
'''))

# --- joint metrics
ref('r4-corr-shared-value', F('joint/corr.go', '(corr *Corr) Value(', '''
func (corr *Corr) Value() (float64, error) {
	if !corr.IsSetCore() {
		return 0, errors.New("Core is not set")
	}
	return correlation(corr.core)
}

func correlation(core *Core) (float64, error) {
	core.RLock()
	defer core.RUnlock()

	cov, err := core.UnsafeSum(1, 1)
	if err != nil {
		return 0, errors.Wrap(err, "error retrieving sum for {1, 1}")
	}
	xVar, err := core.UnsafeSum(2, 0)
	if err != nil {
		return 0, errors.Wrap(err, "error retrieving sum for {2, 0}")
	}
	yVar, err := core.UnsafeSum(0, 2)
	if err != nil {
		return 0, errors.Wrap(err, "error retrieving sum for {0, 2}")
	}
	return cov / math.Sqrt(yVar*xVar), nil
}
'''), F('joint/ewmcorr.go', '(corr *EWMCorr) Value(', '''
func (corr *EWMCorr) Value() (float64, error) {
	if corr.core == nil {
		return 0, errors.New("Core is not set")
	}
	return correlation(corr.core)
}
'''), S('joint/ewmcorr.go', '''	"fmt"
	"math"
''', '''	"fmt"
'''))
ref('r4-corr-push-check', F('joint/corr.go', '(corr *Corr) Push(', '''
func (corr *Corr) Push(xs ...float64) error {
	if !corr.IsSetCore() {
		return errors.New("Core is not set")
	}
	if err := expectPair("Corr", xs); err != nil {
		return err
	}
	return errors.Wrap(corr.core.Push(xs...), "error pushing to core")
}

func expectPair(name string, xs []float64) error {
	if n := len(xs); n != 2 {
		return errors.Errorf("%s expected 2 arguments: got %d (%v)", name, n, xs)
	}
	return nil
}
'''))
ref('r4-ewm-config', F('joint/ewmcorr.go', '(corr *EWMCorr) Config(', '''
func (corr *EWMCorr) Config() *CoreConfig {
	window, decay := 0, corr.decay
	config := &CoreConfig{Window: &window, Decay: &decay}
	config.Sums = SumsConfig{{1, 1}, {2, 0}, {0, 2}}
	return config
}
'''), S('joint/ewmcorr.go', '''	"github.com/pkg/errors"

	"github.com/alexander-yu/stream"
''', '''	"github.com/pkg/errors"
'''))
ref('r4-auto-value', F('joint/autocorr.go', '(a *Autocorr) Clear(', '''
func (a *Autocorr) Clear() {
	if !a.IsSetCore() {
		return
	}

	a.core.Lock()
	defer a.core.Unlock()
	a.core.UnsafeClear()
	a.queue.Dispose()
	a.queue = queue.NewRingBuffer(uint64(a.lag))
}
'''))
ref('r4-auto-push-shift', F('joint/autocov.go', '(a *Autocov) Push(', '''
func (a *Autocov) Push(x float64) error {
	if !a.IsSetCore() {
		return errors.New("Core is not set")
	}

	a.core.Lock()
	defer a.core.Unlock()

	if a.lag == 0 {
		return a.pushPair(x, x)
	}

	if a.queue.Len() >= uint64(a.lag) {
		tail, err := a.queue.Get()
		if err != nil {
			return errors.Wrap(err, "error popping item from lag queue")
		}
		if err := a.pushPair(x, tail.(float64)); err != nil {
			return err
		}
	}
	return errors.Wrapf(a.queue.Put(x), "error pushing %f to lag queue", x)
}

func (a *Autocov) pushPair(x, y float64) error {
	return errors.Wrap(a.core.UnsafePush(x, y), "error pushing to core")
}
'''))
ref('r4-tuple-leq', F('joint/tuple.go', '(m Tuple) leq(', '''
func (m Tuple) leq(n Tuple) bool {
	ok := len(m) == len(n)
	for i := 0; ok && i < len(m); i++ {
		ok = m[i] <= n[i]
	}
	return ok
}
'''))
ref('r4-tuple-sub', F('joint/tuple.go', 'sub(m, n Tuple)', '''
func sub(m, n Tuple) (Tuple, error) {
	if err := sameLen(m, n); err != nil {
		return nil, err
	}

	result := make(Tuple, len(m))
	for i, x := range m {
		result[i] = x - n[i]
	}
	return result, nil
}

func sameLen(m, n Tuple) error {
	if len(m) == len(n) {
		return nil
	}
	return errors.Errorf("Tuples have different lengths: %d != %d", len(m), len(n))
}
'''), F('joint/tuple.go', 'multinom(m, n Tuple)', '''
func multinom(m, n Tuple) (int, error) {
	if err := sameLen(m, n); err != nil {
		return 0, err
	}

	result := 1
	for i := len(m) - 1; i >= 0; i-- {
		result *= mathutil.Binom(m[i], n[i])
	}
	return result, nil
}
'''))
ref('r4-tuple-iter-last', F('joint/tuple.go', 'iter(tuple Tuple', '''
func iter(tuple Tuple, reverse bool, cb func(...int) error) error {
	if len(tuple) == 0 {
		return cb()
	}

	last := tuple[len(tuple)-1]
	rest := tuple[:len(tuple)-1]
	var result *multierror.Error
	for k := 0; k <= last; k++ {
		i := k
		if reverse {
			i = last - k
		}
		err := iter(rest, reverse, func(xs ...int) error {
			return cb(append(xs, i)...)
		})
		result = multierror.Append(result, err)
	}

	return result.ErrorOrNil()
}
'''))

# --- moment metrics
ref('r4-moment-locked', F('moment/moment.go', '(m *Moment) unsafeValue(', '''
func (m *Moment) unsafeValue() (float64, error) {
	sum, err := m.core.UnsafeSum(m.k)
	if err != nil {
		return 0, errors.Wrap(err, "error retrieving sum")
	}
	return sum / float64(m.core.UnsafeCount()-1), nil
}
'''))
ref('r4-skew-closure', F('moment/skewness.go', '(s *Skewness) Value(', '''
func (s *Skewness) Value() (float64, error) {
	if !s.IsSetCore() {
		return 0, errors.New("Core is not set")
	}

	s.core.RLock()
	defer s.core.RUnlock()

	n := float64(s.core.UnsafeCount())
	if n == 0 {
		return 0, errors.New("no values seen yet")
	}

	biased := func(m *Moment) (float64, error) {
		value, err := m.unsafeValue()
		return value * (n - 1) / n, err
	}
	m2, err := biased(s.variance)
	if err != nil {
		return 0, errors.Wrap(err, "error retrieving 2nd moment")
	}
	m3, err := biased(s.moment3)
	if err != nil {
		return 0, errors.Wrap(err, "error retrieving 3rd moment")
	}

	return m3 / math.Pow(m2, 1.5) * math.Sqrt(n*(n-1)) / (n - 2), nil
}
'''))
ref('r4-ewmstd', F('moment/ewmstd.go', '(s *EWMStd) Value(', '''
func (s *EWMStd) Value() (float64, error) {
	if s.IsSetCore() {
		variance, err := s.variance.Value()
		if err == nil {
			return math.Sqrt(variance), nil
		}
		return 0, errors.Wrap(err, "error retrieving 2nd moment")
	}
	return 0, errors.New("Core is not set")
}
'''))
ref('r4-ewma-mean', F('moment/ewma.go', '(a *EWMA) Value(', '''
func (a *EWMA) Value() (float64, error) {
	if !a.IsSetCore() {
		return 0, errors.New("Core is not set")
	}

	ewma, err := a.core.Mean()
	return ewma, errors.Wrap(err, "error retrieving sum")
}
'''))
ref('r4-mc-add-coeff', F('moment/core.go', '(c *Core) add(', '''
func (c *Core) add(x float64) {
	n := float64(c.count)
	c.count++
	count := n + 1
	delta := x - c.mean
	c.mean += delta / count
	step := delta / count
	for k := len(c.sums) - 1; k > 1; k-- {
		sum := c.sums[k]
		sum += n / math.Pow(count, float64(k)) * (math.Pow(n, float64(k-1)) + float64(mathutil.Sign(k))) * math.Pow(delta, float64(k))
		power := 1.0
		for i := 1; i < k-1; i++ {
			power = math.Pow(step, float64(i))
			sum += float64(mathutil.Sign(i)*mathutil.Binom(k, i)) * power * c.sums[k-i]
		}
		c.sums[k] = sum
	}
}
'''))
ref('r4-mc-remove-switch', S('moment/core.go', '''	c.count--
	if c.count > 0 {
		count := float64(c.count)
		c.mean -= (x - c.mean) / count
''', '''	if c.count--; c.count >= 1 {
		count := float64(c.count)
		c.mean = c.mean - (x-c.mean)/count
'''))
ref('r4-mc-lock-helper', F('moment/core.go', '(c *Core) Push(', '''
func (c *Core) Push(x float64) (err error) {
	c.locked(func() { err = c.UnsafePush(x) })
	return err
}

func (c *Core) locked(f func()) {
	c.mux.Lock()
	defer c.mux.Unlock()
	f()
}
'''), F('moment/core.go', '(c *Core) Clear(', '''
func (c *Core) Clear() {
	c.locked(c.UnsafeClear)
}
'''))
ref('r4-std-embed-value', F('moment/std.go', '(s *Std) Value(', '''
func (s *Std) Value() (float64, error) {
	if !s.IsSetCore() {
		return 0, errors.New("Core is not set")
	}

	switch variance, err := s.variance.Value(); {
	case err != nil:
		return 0, errors.Wrap(err, "error retrieving 2nd moment")
	default:
		return math.Sqrt(variance), nil
	}
}
'''))

# --- quantiles
ref('r4-q-interp-method', F('quantile/quantile.go', '(q *Quantile) unsafeValue(', '''
func (q *Quantile) unsafeValue(quantile float64) (float64, error) {
	size := q.statistic.Size()
	if size == 0 {
		return 0, errors.New("no values seen yet")
	}

	whole, delta := math.Modf(quantile * float64(size-1))
	idx := int(whole)
	if delta == 0 {
		return q.at(idx), nil
	}

	switch q.interpolation {
	case Linear:
		return (1-delta)*q.at(idx) + delta*q.at(idx+1), nil
	case Lower:
		return q.at(idx), nil
	case Higher:
		return q.at(idx + 1), nil
	case Nearest:
		if delta > 0.5 || delta == 0.5 && idx%2 != 0 {
			idx++
		}
		return q.at(idx), nil
	default:
		return (q.at(idx) + q.at(idx+1)) / 2, nil
	}
}

func (q *Quantile) at(k int) float64 {
	return q.statistic.Select(k).Value()
}
'''))
ref('r4-q-new-default', S('quantile/quantile.go', '''	avl, err := AVL.init()
	if err != nil {
		return nil, errors.Wrap(err, "error instantiating default AVL order.Statistic")
	}

	quantile := &Quantile{
		window:        window,
		interpolation: Linear,
		queue:         queue.NewRingBuffer(uint64(window)),
		statistic:     avl,
	}

	for _, option := range options {
		err = option(quantile)
		if err != nil {
			return nil, errors.Wrap(err, "error setting option")
		}
	}
''', '''	statistic, err := AVL.init()
	if err != nil {
		return nil, errors.Wrap(err, "error instantiating default AVL order.Statistic")
	}

	quantile := new(Quantile)
	quantile.statistic = statistic
	quantile.queue = queue.NewRingBuffer(uint64(window))
	quantile.window, quantile.interpolation = window, Linear

	for i := range options {
		if err := options[i](quantile); err != nil {
			return nil, errors.Wrap(err, "error setting option")
		}
	}
'''))
ref('r4-impl-map', F('quantile/impl.go', '(i Impl) Valid(', '''
func (i Impl) Valid() bool {
	return i >= AVL && i <= SkipList
}
'''))
ref('r4-impl-init', F('quantile/impl.go', '(i Impl) init(', '''
func (i Impl) init(options ...order.Option) (order.Statistic, error) {
	var statistic order.Statistic
	switch i {
	case SkipList:
		return skiplist.New(options...)
	case AVL:
		statistic = new(avl.Tree)
	case RedBlack:
		statistic = new(rb.Tree)
	default:
		return nil, errors.Errorf("%v is not a supported Impl value", i)
	}
	return withOptions(statistic, options)
}
'''))

# --- aggregates and samples
ref('r4-agg-clear-each', F('aggregate/simple_joint_aggregate.go', '(s *SimpleJointAggregateMetric) Clear(', '''
func (s *SimpleJointAggregateMetric) Clear() {
	s.mux.Lock()
	defer s.mux.Unlock()

	wg := new(sync.WaitGroup)
	wg.Add(len(s.metrics))
	for i := range s.metrics {
		metric := s.metrics[i]
		go func() {
			metric.Clear()
			wg.Done()
		}()
	}
	wg.Wait()
}
'''))
ref('r4-agg-push-collect', F('aggregate/simple_joint_aggregate.go', '(s *SimpleJointAggregateMetric) Push(', '''
func (s *SimpleJointAggregateMetric) Push(xs ...float64) error {
	s.mux.Lock()
	defer s.mux.Unlock()

	var (
		wg     sync.WaitGroup
		mux    sync.Mutex
		result *multierror.Error
	)
	push := func(metric stream.SimpleJointMetric) {
		defer wg.Done()
		if err := metric.Push(xs...); err != nil {
			mux.Lock()
			defer mux.Unlock()
			result = multierror.Append(result, err)
		}
	}
	for _, metric := range s.metrics {
		wg.Add(1)
		go push(metric)
	}
	wg.Wait()

	if err := result.ErrorOrNil(); err != nil {
		return errors.Wrapf(err, "error pushing %v to metrics", xs)
	}
	return nil
}
'''))
ref('r4-reservoir', F('sample/sample.go', '(r *Reservoir) Push(', '''
func (r *Reservoir) Push(x interface{}) {
	r.mux.Lock()
	defer r.mux.Unlock()

	r.count++
	if r.Size >= r.count {
		r.sample = append(r.sample, x)
		return
	}
	index := rand.Intn(r.count)
	if index >= r.Size {
		return
	}
	r.sample[index] = x
}
'''), F('sample/sample.go', '(r *Reservoir) Sample(', '''
func (r *Reservoir) Sample() []interface{} {
	r.mux.Lock()
	defer r.mux.Unlock()

	return append(make([]interface{}, 0, len(r.sample)), r.sample...)
}
'''))
ref('r4-binom-acc', F('util/math/math.go', 'Binom(', '''
func Binom(n, k int) int {
	if n-k < k {
		k = n - k
	}

	result, top := 1, n-k
	for i := 1; i < k+1; i++ {
		result *= top + i
		result /= i
	}
	return result
}
'''), F('util/math/math.go', 'Sign(', '''
func Sign(n int) int {
	if n%2 != 0 {
		return -1
	}
	return 1
}
'''))

if __name__ == '__main__':
    r2.main('r4-')

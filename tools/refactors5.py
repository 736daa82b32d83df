"""More behaviour-preserving edits of the trees' removals (see refactors.py)."""
import refactors as rf, refactors2 as r2
S, ref = r2.S, rf.ref

ref('r5-r2',
    S('quantile/ost/avl/node.go',
      'if root.left == nil {\n',
      'if root.left.Size() == 0 {\n'),
    S('quantile/ost/avl/node.go',
      '} else if root.right == nil {',
      '} else if root.right.Size() < 1 {'))
ref('r5-r7',
    S('quantile/ost/avl/node.go',
      '\t\tif root.left == nil {\n',
      '\t\tif root.left == nil && root.right == nil {\n\t\t\treturn nil\n\t\t}\n\t\tif root.left == nil {\n'))
ref('r5-r9',
    S('quantile/ost/avl/node.go',
      '\t\tif root.left == nil {\n',
      '\t\tif root.size == 1 {\n\t\t\treturn nil\n\t\t}\n\t\tif root.left == nil {\n'))
ref('r5-r9b',
    S('quantile/ost/avl/node.go',
      '\t\tif root.left == nil {\n',
      '\t\tif n.Size() < 2 {\n\t\t\treturn nil\n\t\t}\n\t\tif root.left == nil {\n'))
ref('r5-r10',
    S('quantile/ost/avl/node.go',
      '\t\tif root.left == nil {\n',
      '\t\tif root.left.Size()+root.right.Size() == 0 {\n\t\t\treturn nil\n\t\t}\n\t\tif root.left == nil {\n'))
ref('r5-r11',
    S('quantile/ost/avl/node.go',
      '\t\tif root.left == nil {\n',
      '\t\tif root.size == root.right.Size()+1 {\n\t\t\treturn root.right\n\t\t}\n\t\tif root.left == nil {\n'))
ref('r5-r12',
    S('quantile/ost/avl/node.go',
      '\t\troot = n.right.min()\n\t\troot.right = n.right.removeMin()\n\t\troot.left = n.left\n',
      '\t\tleft, right := n.left, n.right\n\t\troot = right.min()\n\t\trest := right.removeMin()\n\t\troot.left, root.right = left, rest\n'))
ref('r5-r13',
    S('quantile/ost/avl/node.go',
      '\t\troot = n.right.min()\n\t\troot.right = n.right.removeMin()\n\t\troot.left = n.left\n',
      '\t\tm := n.right.min()\n\t\trest := n.right.removeMin()\n\t\troot = &Node{val: m.val, left: n.left, right: rest}\n'))
ref('r5-r14',
    S('quantile/ost/avl/node.go',
      '\t\troot = n.right.min()\n\t\troot.right = n.right.removeMin()\n\t\troot.left = n.left\n',
      '\t\troot.val = n.right.min().val\n\t\troot.right = n.right.removeMin()\n'))
ref('r5-r15',
    S('quantile/ost/avl/node.go',
      '\troot.size = root.left.Size() + root.right.Size() + 1\n\troot.height = max(root.left.Height(), root.right.Height()) + 1\n\treturn root.balance()\n}\n\nfunc (n *Node) min',
      '\treturn root.fix()\n}\n\nfunc (n *Node) fix() *Node {\n\tn.size = n.left.Size() + n.right.Size() + 1\n\tn.height = max(n.left.Height(), n.right.Height()) + 1\n\treturn n.balance()\n}\n\nfunc (n *Node) min'))
ref('r5-r16',
    S('quantile/ost/avl/node.go',
      '\t\troot.left = root.left.remove(val)\n',
      '\t\tif root.left == nil {\n\t\t\treturn root\n\t\t}\n\t\tl := root.left.remove(val)\n\t\tif l == root.left && l.Size() == root.size {\n\t\t\treturn root\n\t\t}\n\t\troot.left = l\n'))
ref('r5-r18',
    S('quantile/ost/avl/node.go',
      '\t\tif root.left == nil {\n',
      '\t\tif l, r := root.left.Height(), root.right.Height(); l+r == 0 {\n\t\t\treturn nil\n\t\t}\n\t\tif root.left == nil {\n'))
ref('r5-r19',
    S('quantile/ost/avl/node.go',
      '\t\tif root.left == nil {\n',
      '\t\tif d := root.heightDiff(); root.height == 2 && d == 1 {\n\t\t\treturn root.left\n\t\t}\n\t\tif root.left == nil {\n'))
ref('r5-b1',
    S('quantile/ost/rb/node.go',
      '\t\tif val == n.val && n.right == nil {\n\t\t\treturn nil\n',
      '\t\tif val == n.val && n.right.Size() == 0 {\n\t\t\treturn n.left\n'))
ref('r5-b2',
    S('quantile/ost/rb/node.go',
      '\t\tif val == n.val && n.right == nil {\n\t\t\treturn nil\n',
      '\t\tif val == n.val && n.size == 1 {\n\t\t\treturn nil\n'))
ref('r5-b3',
    S('quantile/ost/rb/node.go',
      '\tif !n.contains(val) {\n\t\treturn n\n\t}\n\n\tif val',
      '\tif !n.contains(val) {\n\t\treturn n\n\t}\n\tif n.Size() == 1 {\n\t\treturn nil\n\t}\n\n\tif val'))
ref('r5-b4',
    S('quantile/ost/rb/node.go',
      '\t\t\tx := n.right.min()\n\t\t\tn.val = x.val\n\t\t\tn.right = n.right.removeMin()\n',
      '\t\t\tr := n.right\n\t\t\tn.right = nil\n\t\t\tv := r.min().val\n\t\t\tn.right = r.removeMin()\n\t\t\tn.val = v\n'))
ref('r5-b5',
    S('quantile/ost/rb/node.go',
      '\tif n.left == nil {\n\t\treturn nil\n\t}\n\tif n.left.Color()',
      '\tif n.left.Size() == 0 {\n\t\treturn n.right\n\t}\n\tif n.left.Color()'))

if __name__ == '__main__':
    r2.main('r5-')

module github.com/alexander-yu/stream

go 1.18

require (
	github.com/gammazero/deque v0.2.1
	github.com/hashicorp/go-multierror v1.0.0
	github.com/pkg/errors v0.8.1
	github.com/sirupsen/logrus v1.4.0
	github.com/stretchr/testify v1.3.0
	github.com/workiva/go-datastructures v1.0.50
)

require (
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/hashicorp/errwrap v1.0.0 // indirect
	github.com/konsorten/go-windows-terminal-sequences v1.0.2 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	golang.org/x/crypto v0.0.0-20190325154230-a5d413f7728c // indirect
	golang.org/x/sys v0.0.0-20190322080309-f49334f85ddc // indirect
)

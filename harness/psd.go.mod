module github.com/oov/psd

go 1.27.3

require (
	github.com/oov/downscale v0.0.0
	github.com/pkg/errors v0.9.1
	golang.org/x/image v0.47.0
	golang.org/x/text v0.43.0
)

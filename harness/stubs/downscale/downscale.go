// Package downscale stands in for github.com/oov/downscale, which is not
// available offline. It scales nothing: it only hands the pictures it is given
// to the harness.
package downscale

import (
	"context"
	"image"
)

// Hook receives the arguments of NRGBAFast.
var Hook func(dest, src *image.NRGBA) error

func NRGBAFast(ctx context.Context, dest, src *image.NRGBA) error {
	if Hook != nil {
		return Hook(dest, src)
	}
	return nil
}

module github.com/oov/downscale

go 1.20

module vf

go 1.26.0

require github.com/bantling/micro v0.0.0

replace github.com/bantling/micro => /repo

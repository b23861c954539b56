module verifharness

go 1.23

require github.com/cespedes/accounting v0.0.0

require github.com/lib/pq v1.3.0 // indirect

replace github.com/cespedes/accounting => /repo

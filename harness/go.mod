module verifharness

go 1.16

require github.com/mescanne/goledger v0.0.0

replace github.com/mescanne/goledger => /repo

module verif

go 1.22

require github.com/use-go/gosips v0.0.0

replace github.com/use-go/gosips => /repo

module verif.local/harness

go 1.21

require github.com/qjebbs/go-sqlf/v2 v2.0.0

replace github.com/qjebbs/go-sqlf/v2 => /repo

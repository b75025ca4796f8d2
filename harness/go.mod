module verif/harness

go 1.21

require (
	github.com/wearelumenai/distclus v0.0.0
	golang.org/x/exp v0.0.0-20200513190911-00229845015e
	verif/vsched v0.0.0
)

replace github.com/wearelumenai/distclus => /repo

replace verif/vsched => ../vsched

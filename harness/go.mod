module vh

go 1.24

require (
	github.com/sp301415/tfhe-go v0.0.0
	golang.org/x/sys v0.30.0
)

replace github.com/sp301415/tfhe-go => /repo

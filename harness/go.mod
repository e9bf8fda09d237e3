module verif/harness

go 1.26

require (
	github.com/Atheer-Ganayem/SnapWS v0.0.0
	pgregory.net/rapid v1.3.0
)

require golang.org/x/time v0.12.0 // indirect

replace github.com/Atheer-Ganayem/SnapWS => /repo

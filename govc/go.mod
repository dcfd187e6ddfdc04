module govc

go 1.23

require golang.org/x/tools v0.22.0

require (
	golang.org/x/mod v0.18.0
	golang.org/x/sync v0.7.0
)

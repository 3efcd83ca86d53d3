module vibeverif

go 1.23

require (
	github.com/weaviate/sroar v0.0.9
	pgregory.net/rapid v1.3.0
	vibe-lsm v0.0.0
)

require github.com/pkg/errors v0.9.1 // indirect

replace vibe-lsm => /repo

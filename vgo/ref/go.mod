module github.com/iv-menshenin/valyjson

go 1.18

require (
	github.com/iv-menshenin/go-ast v0.0.3
	github.com/stretchr/testify v1.8.1
	golang.org/x/mod v0.7.0
)

require (
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
)

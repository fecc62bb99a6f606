module github.com/indigo-web/indigo

go 1.18

require (
	github.com/indigo-web/chunkedbody v0.1.0
	github.com/indigo-web/iter v0.1.0
	github.com/indigo-web/utils v0.6.2
	github.com/json-iterator/go v1.1.12
	github.com/stretchr/testify v1.9.0
	golang.org/x/crypto v0.21.0
)

require (
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/modern-go/concurrent v0.0.0-20180306012644-bacd9c7ef1dd // indirect
	github.com/modern-go/reflect2 v1.0.2 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	golang.org/x/net v0.22.0 // indirect
	golang.org/x/text v0.14.0 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
)

replace github.com/indigo-web/utils => /verif/stubs/utils

replace github.com/indigo-web/chunkedbody => /verif/stubs/chunkedbody

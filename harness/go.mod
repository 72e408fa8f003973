module verif/harness

go 1.23

require (
	github.com/boynton/data v0.0.1
	github.com/boynton/sadl v0.0.0
	github.com/boynton/scanner v1.0.0 // indirect
	github.com/boynton/smithy v0.4.8
	github.com/ghodss/yaml v1.0.0
	github.com/graphql-go/graphql v0.8.0
	gopkg.in/yaml.v2 v2.4.0 // indirect
	pgregory.net/rapid v1.3.0
)

replace (
	github.com/boynton/sadl => /repo
	github.com/boynton/scanner => ../standins/scanner
	github.com/boynton/smithy => ../standins/smithy
)

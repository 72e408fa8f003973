module github.com/boynton/smithy

go 1.18

require github.com/boynton/data v0.0.1

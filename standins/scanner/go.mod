module github.com/boynton/scanner

go 1.18

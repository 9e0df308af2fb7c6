module github.com/hedzr/store/verifharness

go 1.26
